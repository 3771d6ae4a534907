"""The expression grammar is read from the parser's source and walked from the entry of expressions down to the atoms. Every layer
must consist of one operand of the next layer followed by any number of (operator, operand of the same next layer), folded from the
left into BinOp(operator, tree so far, operand); the operators of the layers, in this order, are compared with Rust's table. An
operator must not be tried before one it is a prefix of, and a tighter layer must not be able to take a prefix of a looser operator
as its own operator with the rest as the start of an operand. Below the binary layers: filters wrap the operand from the inside out
as first argument, unary operators apply from the innermost to the outermost, suffixes wrap the expression so far, and an atom
contains a full expression only between its own delimiters."""
from parslib import *

TABLE = [["||"], ["&&"], ["==", "!=", ">=", ">", "<=", "<"], ["|"], ["^"], ["&"], [">>", "<<"], ["+", "-"], ["*", "/", "%"]]
NAMES = ["logical or", "logical and", "comparison", "bit or", "bit xor", "bit and", "shift", "additive", "multiplicative"]
ENTRY = "expr::Expr::parse"
INLINE = ("expr::Suffix::attr", "expr::Suffix::index", "expr::Suffix::call", "expr::Suffix::r#try", "expr::Suffix::r#macro")
EX = "expr::Expr"


def grammar(C):
    if not hasattr(C, "_p01"):
        C._p01 = Grammar(C, inline=INLINE)
    return C._p01


def run(C):
    R = C.R
    R.floor = 25
    R.section("range", range_, C)
    R.section("layers", layers, C)
    R.section("filters", filters, C)
    R.section("unary", unary, C)
    R.section("suffix", suffix, C)
    R.section("atoms", atoms, C)
    R.section("prefixes", prefixes, C)
    R.section("list", oplist, C)
    R.section("numbers", numbers, C)


def core(steps):
    """Steps that matter for what is recognised: without space and the alternatives tried before."""
    return [s for s in steps if s[0] not in ("ws", "no")]


def index(steps):
    return [k for k, s in enumerate(steps) if s[0] not in ("ws", "no")]


def tagrun(steps):
    """(operator spelled at the start of the steps, the following steps)"""
    st = [s for s in steps if s[0] != "no"]
    while st and st[0][0] == "ws":
        st = st[1:]
    op = ""
    while st and st[0][0] == "tag" and isinstance(st[0][1], str):
        op += st[0][1]
        st = st[1:]
    return op, st


def oks(C, name):
    ps_ = [p for p in grammar(C).paths(name) if p.status == "Ok"]
    if not ps_:
        raise Undecided("no successful path of " + name)
    return ps_


def isnt(s):
    return s[0] == "nt" and s[1].startswith("expr::")


def layer(C, name):
    """Binary layer: (operators in the order they are tried, next layer). None if it has another shape."""
    G = grammar(C)
    ops, inner, bad = [], None, []
    for p in oks(C, name):
        it = G.iterations(p)
        if it is None or not p.linear and not it[1]:
            return None
        inits, its = it
        st = core(p.steps)
        if not st or not isnt(st[0]) or len(st) > 2 or len(st) == 2 and st[1][0] not in ("many", "opt"):
            return None
        inner = st[0][1]
        k0 = index(p.steps)[0]
        accs = [l for l, v in inits.items() if v == ("o", k0)]
        if len(accs) != 1:
            return None
        acc = accs[0]
        out = p.out
        if not its:
            return None
        for steps, conds, upd, order in its:
            op, rest = tagrun(steps)
            rest = core(rest)
            if len(rest) != 1 or not isnt(rest[0]):
                return None
            ops.append(op)
            kr = index(steps)[-1]
            v = upd.get(acc)
            if not (is_agg(v) and v[2] == "BinOp"):
                bad.append((op, "is built as %s" % pp(v)[:100]))
                continue
            f = [x for _, x in v[3]]
            good = f[0] == ("str", op) and f[1] == acc and f[2] == ("o", kr)
            if not good:
                bad.append((op, "is built as BinOp(%s)" % ", ".join(pp(x)[:40] for x in f)))
            if rest[0][1] != inner:
                bad.append((op, "has the operand %s on the right, %s on the left" % (rest[0][1], inner)))
            if order != "fwd":
                bad.append((op, "is folded in another order than written"))
        if out != acc:
            bad.append(("", "the layer yields %s" % pp(out)[:80]))
        ops = list(dict.fromkeys(ops))
    return ops, inner, bad


def walk(C):
    """[(name, ops, next, bad)] of the binary layers from the loosest; and the layer below them."""
    if not hasattr(C, "_p01w"):
        cur, out = first(C), []
        while len(out) < 30:
            r = layer(C, cur)
            if r is None or r[0] == ["|"] and False:
                break
            ops, inner, bad = r
            if any(o == "" for o in ops):
                break
            out.append((cur, ops, inner, bad))
            cur = inner
        C._p01w = out, cur
    return C._p01w


def first(C):
    """The layer below ranges."""
    names = {s[1] for p in oks(C, ENTRY) for s in core(p.steps) if isnt(s)}
    names |= {s[1] for p in oks(C, ENTRY) for t in core(p.steps) if t[0] in ("opt", "many") for a in t[1] for s in core(a[0]) if isnt(s)}
    if len(names) != 1:
        known = grammar(C)
        for a in sorted(names):
            # an operand that is reached from another operand's grammar is not the loosest one
            if all(o == a or o in reach(C, a) for o in names) and not any(a in reach(C, o) for o in names - {a}):
                C.R.bad("range:operands", "the operands of a range are parsed by %s" % sorted(names), known.body(ENTRY).where())
                return a
        raise Undecided("operands of a range: %s" % sorted(names))
    return list(names)[0]


def reach(C, name):
    """Nonterminals that can parse the first operand below `name`."""
    out, work = set(), [name]
    while work:
        n = work.pop()
        for p in grammar(C).paths(n):
            st = [s for s in p.steps if s[0] not in ("ws", "no")]
            if p.status == "Ok" and st and isnt(st[0]) and st[0][1] not in out:
                out.add(st[0][1])
                work.append(st[0][1])
    return out


def range_(C):
    R = C.R
    b = grammar(C).body(ENTRY)
    nxt = first(C)
    n = 0
    forms = set()
    for p in oks(C, ENTRY):
        for steps, conds, out in expand(p.steps, p.conds, p.out):
            for a in flat_alts(steps, conds, out):
                steps2, conds2, out2 = a
                st = index(steps2)
                kinds = [steps2[k] for k in st]
                ops = [k for k in st if steps2[k][0] == "tag"]
                opd = [k for k in st if isnt(steps2[k])]
                if any(not isnt(steps2[k]) and steps2[k][0] != "tag" for k in st) or len(ops) > 1 or len(opd) > 2:
                    raise Undecided("range: %s" % " ".join(ps(s) for s in steps2)[:120])
                n += 1
                key = "range:" + " ".join("op" if k in ops else "operand" for k in st)
                if not ops:
                    forms.add("plain")
                    R.check(len(opd) == 1 and out2 == ("o", opd[0]), key, "an operand alone yields %s" % pp(out2)[:80], b.where())
                    continue
                op = steps2[ops[0]][1]
                left = [k for k in opd if k < ops[0]]
                right = [k for k in opd if k > ops[0]]
                forms.add((op, bool(left), bool(right)))
                if not is_agg(out2, "Range"):
                    R.bad(key, "%s yields %s" % (op, pp(out2)[:80]), b.where())
                    continue
                f = [x for _, x in out2[3]]
                some = lambda ks: some_(("o", ks[0])) if ks else ("agg", "std::option::Option", "None", ())
                R.check(f[0] == ("str", op) and same_opt(f[1], left) and same_opt(f[2], right) and len(left) < 2 and len(right) < 2, key + ":" + op,
                        "the range is built as Range(%s)" % ", ".join(pp(x)[:40] for x in f), b.where())
    want = {"plain"} | {(o, l, r) for o in ("..", "..=") for l in (True, False) for r in (True, False)}
    for w in sorted(want - forms, key=str):
        R.bad("range:form:%s" % (w if isinstance(w, str) else "%s left=%s right=%s" % w), "no such range is accepted", b.where())
    for w in sorted(forms - want, key=str):
        R.bad("range:extra:%s" % (w,), "an operator %s is on the level of ranges" % (w,), b.where())


def same_opt(v, ks):
    return is_agg(v, "Some") and v[3][0][1] == ("o", ks[0]) if ks else is_agg(v, "None")


def flat_alts(steps, conds, out):
    """Expand every remaining option into taken and not taken."""
    for k, s in enumerate(steps):
        if s[0] == "opt":
            res = []
            for v in ("Some", "None"):
                for x in expand(steps, tuple(conds) + (("is", ("o", k), v),), out):
                    res += flat_alts(*x)
            return res
    return [(steps, conds, out)]


def layers(C):
    R = C.R
    ls, below = walk(C)
    b = grammar(C).body(ENTRY)
    if not ls:
        raise Undecided("no binary layers")
    got = [set(ops) for _, ops, _, _ in ls]
    want = [set(x) for x in TABLE]
    pos = {o: i for i, g in enumerate(got) for o in g}
    for i, w in enumerate(TABLE):
        for o in w:
            if o not in pos:
                R.bad("layer:%s" % o, "no layer has the operator", b.where())
            elif list(got).count(got[pos[o]]) and sum(o in g for g in got) > 1:
                R.bad("layer:%s" % o, "the operator is in several layers", b.where())
            else:
                mates = got[pos[o]] - set(w)
                R.check(not mates and set(w) <= got[pos[o]], "layer:%s" % o, "same layer as %s" % sorted(got[pos[o]] - {o}), grammar(C).body(ls[pos[o]][0]).where())
    order = [o for g in [sorted(x) for x in TABLE] for o in g]
    ranks = [(i, min([pos[o] for o in w if o in pos], default=None)) for i, w in enumerate(TABLE)]
    ranks = [(i, r) for i, r in ranks if r is not None]
    for (i, r), (j, q) in zip(ranks, ranks[1:]):
        R.check(r < q, "order:%s" % NAMES[i], "%s binds looser than %s" % (NAMES[i], NAMES[j]), b.where())
    extra = set(pos) - {o for w in TABLE for o in w}
    for o in sorted(extra):
        R.bad("layer:extra:%s" % o, "an operator outside Rust's table", b.where())
    for name, ops, inner, bad in ls:
        w = grammar(C).body(name).where()
        for o in ops:
            bb = [m for x, m in bad if x == o]
            R.check(not bb, "build:%s" % o, bb[0] if bb else "(%s) folds to the left over %s" % (o, inner), w)
        for x, m in bad:
            if x == "":
                R.bad("build:%s" % name, m, w)
        for i, o in enumerate(ops):
            for o2 in ops[:i]:
                if o.startswith(o2):
                    R.bad("tried:%s" % o, "'%s' is tried before '%s'" % (o2, o), w)
        R.ok("tried:%s" % name)
    # the repeated options of the range layer
    for p in oks(C, ENTRY):
        for s in p.steps:
            if s[0] == "no":
                continue
        for k, s in enumerate(p.steps):
            if s[0] == "tag" and isinstance(s[1], str):
                before = [x for x in p.steps[:k] if x[0] == "no"]
    rng = rangeops(C)
    for i, o in enumerate(rng):
        R.check(not any(o.startswith(o2) for o2 in rng[:i]), "tried:%s" % o, "tried in the order %s" % rng, b.where())


def rangeops(C):
    out = []
    for p in oks(C, ENTRY):
        for s in core(p.steps):
            if s[0] == "tag":
                out.append(s[1])
            elif s[0] in ("opt", "many"):
                out += [tagrun(a[0])[0] for a in s[1]]
    return [o for o in dict.fromkeys(out) if o]


# ---------------------------------------------------------------------------------------------- below the binary layers
def filters(C):
    R = C.R
    G = grammar(C)
    ls, name = walk(C)
    b = G.body(name)
    n = 0
    for p in oks(C, name):
        it = G.iterations(p)
        st = core(p.steps)
        if it is None or not st or not isnt(st[0]):
            raise Undecided("filter layer %s" % " ".join(ps(s) for s in p.steps)[:100])
        inits, its = it
        accs = [l for l, v in inits.items() if v == ("o", index(p.steps)[0])]
        if len(accs) != 1:
            raise Undecided("filter layer")
        acc = accs[0]
        R.check(p.out == acc, "filter:result", "the layer yields %s" % pp(p.out)[:80], b.where())
        for steps, conds, upd, order in its:
            n += 1
            st = core(steps)
            if len(st) != 1 or st[0][:2] != ("nt", "filter"):
                raise Undecided("filter layer applies %s" % " ".join(ps(s) for s in steps)[:100])
            o = ("o", index(steps)[0])
            v = upd.get(acc)
            R.check(order == "fwd", "filter:order", "filters are applied in the order they are written", b.where())
            ok_ = is_agg(v, "Filter") and is_agg(v[3][0][1])
            f = dict(v[3][0][1][3]) if ok_ else {}
            given = [c for c in conds if c[0] == "is" and c[2] in ("Some", "None")]
            key = "filter:build:" + (given[0][2] if given else "any")
            args = ("fld", o, "1")
            want = [("call", "@cons", (acc, ("fld", ("as", args, "Some"), "0")))] if given and given[0][2] == "Some" else [("vec", (acc,)), ("arr", (acc,))]
            R.check(ok_ and f.get("name") == ("fld", o, "0") and f.get("arguments") in want, key,
                    "name(value so far, arguments...): %s" % pp(v)[:140], b.where())
    if not n:
        raise Undecided("no filter loop")
    fb = G.body("filter")
    for p in oks(C, "filter"):
        st = core(p.steps)
        k = index(p.steps)
        shape = [s[0] if s[0] != "nt" else s[1] for s in st]
        R.check(bool(st) and p.steps[0] == ("tag", "|"), "filter:bar", "a filter starts with '|' without space before it: %s" % " ".join(ps(s) for s in p.steps)[:100], fb.where())
        R.check(shape[1:2] == ["identifier"], "filter:name", "the name follows: %s" % shape, fb.where())
        if len(shape) == 3 and shape[2] == "opt":
            a = [core(x[0]) for x in st[2][1]]
            R.check(all(len(x) == 1 and x[0][:2] == ("nt", "expr::Expr::arguments") for x in a), "filter:arguments", "then optional arguments: %s" % pg(st[2][1])[:80], fb.where())
            R.check(p.out == tup(("o", k[1]), ("o", k[2])), "filter:value", "yields %s" % pp(p.out)[:80], fb.where())


def below(C, name):
    """The expression nonterminal the single operand of a layer is parsed by."""
    nts = {s[1] for p in oks(C, name) for s in core(p.steps) if isnt(s)}
    if len(nts) != 1:
        raise Undecided("operand of %s: %s" % (name, sorted(nts)))
    return list(nts)[0]


def unary(C):
    R = C.R
    G = grammar(C)
    name = below(C, walk(C)[1])
    b = G.body(name)
    ops = set()
    for p in oks(C, name):
        it = G.iterations(p)
        st, ks = core(p.steps), index(p.steps)
        if st and isnt(st[0]) and len(st) > 1 and not any("'Unary'" in repr(q.out) or "'Unary'" in repr(G.iterations(q)) for q in oks(C, name)):
            return R.bad("unary:layer", "filters are applied to %s, where no unary operator has been read" % name, b.where())
        if it is None or not st or not isnt(st[-1]):
            raise Undecided("unary layer %s" % " ".join(ps(s) for s in p.steps)[:100])
        inits, its = it
        accs = [l for l, v in inits.items() if v == ("o", ks[-1])]
        if len(accs) != 1:
            raise Undecided("unary layer")
        acc = accs[0]
        R.check(p.out == acc, "unary:result", "the layer yields %s" % pp(p.out)[:80], b.where())
        for steps, conds, upd, order in its:
            op, rest = tagrun(steps)
            if not op or core(rest):
                raise Undecided("unary operator %s" % " ".join(ps(s) for s in steps)[:100])
            ops.add(op)
            v = upd.get(acc)
            R.check(is_agg(v, "Unary") and [x for _, x in v[3]] == [("str", op), acc], "unary:build:%s" % op, "builds %s" % pp(v)[:100], b.where())
            R.check(order == "rev", "unary:order:%s" % op, "the operator next to the operand is applied first", b.where())
    R.check(ops == {"!", "-"}, "unary:operators", "unary operators %s" % sorted(ops), b.where())


def suffix(C):
    R = C.R
    G = grammar(C)
    name = below(C, below(C, walk(C)[1]))
    b = G.body(name)
    seen = {}
    for p in oks(C, name):
        it = G.iterations(p)
        if it is None:
            raise Undecided("suffix layer %s" % " ".join(ps(s) for s in p.steps)[:100])
        inits, its = it
        accs = [l for l, v in inits.items() if v == ("o", index(p.steps)[0])]
        if len(accs) != 1:
            raise Undecided("suffix layer")
        acc = accs[0]
        R.check(p.out == acc, "suffix:result", "the layer yields %s" % pp(p.out)[:80], b.where())
        for steps, conds, upd, order in its:
            seen.setdefault(head(steps), []).append((steps, conds, upd.get(acc), order, acc))
    for h, want in (("[", "Index"), (".", "Attr"), ("?", "Try"), ("!(", "RustMacro"), ("<arguments>", "Call")):
        if h not in seen:
            R.bad("suffix:%s" % h, "no suffix starts with %s: %s" % (h, sorted(seen)), b.where())
            continue
        for steps, conds, v, order, acc in seen[h]:
            if not is_agg(v):
                R.bad("suffix:%s" % h, "builds %s" % pp(v)[:80], b.where())
                continue
            f = [x for _, x in v[3]]
            nts = [k for k, s in enumerate(steps) if s[0] == "nt" and s[1] != "expr::Suffix::r#macro::nested_parenthesis"]
            good = v[2] == want
            if want == "RustMacro":
                good = good and f[0] in (("vec", (("fld", ("as", acc, "Var"), "0"),)), ("arr", (("fld", ("as", acc, "Var"), "0"),)), ("fld", ("as", acc, "Path"), "0"))
            elif want == "Try":
                good = good and f == [acc]
            else:
                good = good and f[0] == acc and bool(nts) and f[1] == ("o", nts[-1])
            R.check(good and order == "fwd", "suffix:%s:%s" % (h, steps[nts[-1]][1] if nts else want), "applies to the expression so far: %s" % pp(v)[:100], b.where())
    for h in sorted(set(seen) - {"[", ".", "?", "!(", "<arguments>"}):
        R.bad("suffix:extra:%s" % h, "an unknown suffix: %s" % " ".join(ps(s) for s in seen[h][0][0])[:100], b.where())
    for steps, conds, v, order, acc in seen.get(".", []):
        nxt = [s for s in steps if s[0] != "no"]
        i = [k for k, s in enumerate(nxt) if s == ("tag", ".")]
        guard = i and len(nxt) > i[0] + 1 and nxt[i[0] + 1][0] == "not" and [tagrun(a[0])[0] for a in nxt[i[0] + 1][1]] == ["."]
        R.check(bool(guard), "suffix:dot", "a dot followed by a dot is no attribute: %s" % " ".join(ps(s) for s in steps)[:100], b.where())
    for steps, conds, v, order, acc in seen.get("[", []):
        c = core(steps)
        R.check([s[0] for s in c] == ["tag", "nt", "tag"] and c[1][1] == ENTRY and c[2] == ("tag", "]"), "suffix:index", "an index is a full expression in brackets: %s" % " ".join(ps(s) for s in steps)[:100], b.where())


def head(steps):
    op, rest = tagrun(steps)
    if op:
        while rest and rest[0][0] == "ws" and len(rest) > 1 and rest[1][0] == "tag" and op == "!":
            op, rest = op + rest[1][1], rest[2:]
        return op
    c = core(rest)
    if c and c[0][:2] == ("nt", "expr::Expr::arguments"):
        return "<arguments>"
    return ps(c[0]) if c else ""


CLOSE = {"(": ")", "[": "]"}


def atoms(C):
    """In an atom, full expressions stand between delimiters only."""
    R = C.R
    G = grammar(C)
    name = below(C, below(C, below(C, walk(C)[1])))
    chain = {n for n, _, _, _ in walk(C)[0]} | {ENTRY, walk(C)[1], below(C, walk(C)[1]), below(C, below(C, walk(C)[1])), name}
    done, todo = set(), [name]
    delim = 0
    while todo:
        n = todo.pop()
        if n in done:
            continue
        done.add(n)
        b = G.body(n)
        for p in oks(C, n):
            depth = []
            for s in p.steps:
                if s[0] == "tag" and s[1] in CLOSE:
                    depth.append(CLOSE[s[1]])
                elif s[0] == "tag" and depth and s[1] == depth[-1]:
                    depth.pop()
                elif s[0] == "nt" and s[1] in chain:
                    delim += 1
                    R.check(bool(depth) and s[1] == ENTRY, "atom:%s:%s" % (n, s[1]), "a nested expression outside delimiters: %s" % " ".join(ps(x) for x in p.steps)[:120], b.where())
                elif s[0] == "nt" and s[1] in G.nts and s[1].startswith("expr::"):
                    R.check(not depth or s[1] != name, "atom:%s:%s" % (n, s[1]), "", b.where())
                    if not depth:
                        todo.append(s[1])
                elif s[0] in ("opt", "many", "sep"):
                    for P in s[1:3]:
                        if not isinstance(P, tuple):
                            continue
                        for a in P:
                            for x in a[0]:
                                if x[0] == "nt" and x[1] in chain:
                                    delim += 1
                                    R.check(bool(depth) and x[1] == ENTRY, "atom:%s:%s" % (n, x[1]), "a nested expression outside delimiters: %s" % " ".join(ps(y) for y in p.steps)[:120], b.where())
            R.check(not depth, "atom:%s:closed" % n, "delimiters are closed: %s" % " ".join(ps(x) for x in p.steps)[:120], b.where())
    # what the delimited atoms become
    gb = G.body("expr::Expr::group")
    for p in oks(C, "expr::Expr::group"):
        for steps, conds, out in expand(p.steps, p.conds, p.out):
            es = [k for k, s in enumerate(steps) if s[0] == "nt" and s[1] == ENTRY]
            many = [k for k, s in enumerate(steps) if s[0] == "many"]
            comma = [s for s in steps if s[0] == "peek" or s[0] == "tag" and s[1] == ","]
            if not es:
                R.check(out == agg("expr::Expr", "Tuple", [("0", ("vec", ()))]) or is_agg(out, "Tuple") and out[3][0][1] in (("vec", ()), ("arr", ())), "group:empty", "() is %s" % pp(out)[:80], gb.where())
            elif is_agg(out, "Group"):
                R.check(out[3][0][1] == ("o", es[0]) and not many and not comma, "group:group", "(e) is a group of its expression: %s" % pp(out)[:80], gb.where())
            else:
                R.check(is_agg(out, "Tuple") and mentions(out, ("o", es[0])) and bool(comma or many), "group:tuple", "(e, ...) is a tuple: %s" % pp(out)[:80], gb.where())


# ---------------------------------------------------------------------------------------------- operators and their prefixes
def first_chars(C, steps, seen=()):
    """Characters a sequence of steps can start with, after space. Classes: "0" digits, "a" letters. None if unknown."""
    out = set()
    for s in steps:
        if s[0] in ("ws", "no", "not", "peek"):
            continue
        if s[0] == "tag":
            if not isinstance(s[1], str) or not s[1]:
                return None
            return out | {s[1][0]}
        if s[0] in ("opt", "many", "sep"):
            P = s[2] if s[0] == "sep" else s[1]
            for a in P:
                f = first_chars(C, a[0], seen)
                if f is None:
                    return None
                out |= f
            if s[0] == "many" and s[2]:
                return out
            continue
        if s[0] == "nt":
            if s[1] in seen:
                return out
            if s[1] == "num_lit":
                return out | {"-", "0"}
            if s[1] == "identifier":
                return out | {"a", "_"}
            if s[1] not in grammar(C).nts:
                return None
            f = set()
            for p in oks(C, s[1]):
                g = first_chars(C, p.steps, seen + (s[1],))
                if g is None:
                    return None
                f |= g
            return out | f
        if s[0] in ("leaf", "comb"):
            return None
    return out


def prefixes(C):
    R = C.R
    ls, below_ = walk(C)
    b = grammar(C).body(ENTRY)
    start = first_chars(C, [("nt", below_, ())])
    if start is None:
        raise Undecided("what an operand starts with")
    R.check("=" not in start and "|" not in start and "&" not in start and "<" not in start and ">" not in start and "." not in start, "operand:start",
            "an operand starts with one of %s" % sorted(start), b.where())
    all_ = [(i, o) for i, (_, ops, _, _) in enumerate(ls) for o in ops] + [(-1, o) for o in rangeops(C)]
    for i, o in all_:
        for j, q in all_:
            # the layer j is tighter, it is tried first
            if j > i and o != q and o.startswith(q):
                rest = o[len(q):]
                cls = "0" if rest[0].isdigit() else "a" if rest[0].isalpha() else rest[0]
                R.check(cls not in start, "prefix:%s:%s" % (q, o), "'%s' binds tighter and an operand can start with '%s'" % (q, rest), b.where())
    # suffixes
    G = grammar(C)
    name = below(C, below(C, below_))
    heads = set()
    for p in oks(C, name):
        it = G.iterations(p)
        for steps, conds, upd, order in (it[1] if it else ()):
            op, rest = tagrun(steps)
            nx = [s for s in rest if s[0] != "ws"]
            heads.add((op, tuple(nx[:1])))
    for op, rest in sorted(heads, key=repr):
        for i, o in all_:
            if op and o.startswith(op):
                left = o[len(op):]
                guarded = rest and rest[0][0] == "not" and any(tagrun(a[0])[0] and left.startswith(tagrun(a[0])[0]) for a in rest[0][1])
                guarded = guarded or rest and rest[0][0] == "tag" and left and not left.startswith(rest[0][1]) and not rest[0][1].startswith(left)
                R.check(bool(left) and bool(guarded), "prefix:suffix:%s:%s" % (op, o), "the suffix '%s' is tried before the operator '%s'" % (op, o), G.body(name).where())


def oplist(C):
    """The operators no delimiter may equal are those of the grammar."""
    R = C.R
    b = grammar(C).body(ENTRY)
    have = {o for _, ops, _, _ in walk(C)[0] for o in ops if len(o) > 1} | {o for o in rangeops(C) if len(o) > 1}
    k = C.P.crates[CR].consts.get("expr::TWO_PLUS_CHAR_OPS")
    if k is None:
        raise Missing("TWO_PLUS_CHAR_OPS")
    v = grammar(C).E.const(k["val"]) if isinstance(k, dict) else None
    strs = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "str":
                strs.add(x[1])
            for y in x:
                go(y)
    go(v)
    if not strs:
        raise Undecided("TWO_PLUS_CHAR_OPS: %s" % str(k)[:80])
    for o in sorted(have | strs):
        R.check(o in have and o in strs, "list:%s" % o, "operator %s: in the grammar %s, in the list %s" % (o, o in have, o in strs), b.where())


def numbers(C):
    """The dot of a range is never taken for that of a number."""
    R = C.R
    G = grammar(C)
    b = G.body("num_lit")
    n = [0]

    def go(steps):
        st = [s for s in steps if s[0] != "no"]
        for i, s in enumerate(st):
            if s[0] == "tag" and s[1] == ".":
                n[0] += 1
                nx = st[i + 1] if i + 1 < len(st) else None
                R.check(nx is not None and nx[0] == "comb" and nx[1] == "separated_digits", "number:dot", "a dot in a number is followed by digits: %s" % " ".join(ps(x) for x in st)[:120], b.where())
                if nx is not None and nx[0] == "comb":
                    R.check(nx[2][0] == ("int", 10) and nx[2][1] == ("bool", True), "number:fraction", "the fraction starts with a decimal digit: %s" % ps(nx), b.where())
            for P in s[1:]:
                if s[0] in ("opt", "many", "sep", "not", "peek") and isinstance(P, tuple):
                    for a in P:
                        go(a[0])
    for p in oks(C, "num_lit"):
        go(p.steps)
    if not n[0]:
        raise Undecided("no fractions in num_lit")
