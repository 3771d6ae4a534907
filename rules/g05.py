"""Every form of expression the parser can produce has at least one path in visit_expr that generates code, and on each
such path the generated text is compared, operand by operand and for operand lists of 0 to 3 elements, with the form's
Rust notation: each operand's code exactly once and in source order, with the operator, name, literal, path or argument
text of that very expression between them (redundant parentheses and trailing commas are ignored; the comma of a
one-element tuple and the space after a binary operator are not). Argument lists and patterns are treated alike."""
from exprlib import *


def run(C):
    R = C.R
    R.floor = 40
    R.section("forms", forms, C)
    R.section("arguments", arguments, C)
    R.section("patterns", patterns, C)


def norm(s):
    """Ignore trailing commas and parentheses directly around one operand, name the operands shortly."""
    s = re.sub(r"node\(\w+\)", "N", s)
    s = re.sub(r"elem\(N([.\d]*),(\d+)\)", r"N\1[\2]", s)
    return s


def unparen(s):
    while True:
        t = re.sub(r"(?<![\w⟧!>])\((⟦expr [^⟧]*⟧)\)", r"\1", s)
        if t == s:
            return s
        s = t


NAME = r"(?:⟦normalize_identifier\(%s\)⟧)"


def expected(p):
    """Allowed texts (regular expressions) for one path."""
    k, f = p.kind, p.f
    n = {c[1]: c[2] for c in p.conds if c[0] == "count"}
    def cnt(fld):
        return n.get(("fld", ("node", k), fld))
    def ops(fld, form="⟦expr N.%s[%d]⟧"):
        c = cnt(fld)
        if "⟦join(N.%s,'::')⟧" % fld in norm(p.text) and form.startswith("⟦N"):
            return [re.escape("⟦join(N.%s,'::')⟧" % fld)]
        if c is None:
            # destructured by length: the elements are named by index
            for x in p.conds:
                if x[0] == "t" and x[1][0] == "eq" and x[2] and x[1][1] == ("lenof", ("fld", ("node", k), fld)) and x[1][2][0] == "int":
                    c = x[1][2][1]
        if c is None:
            raise Undecided("operand list of %s: %s" % (k, p.text[:80]))
        return [re.escape(form % (fld, i)) for i in range(c)]
    if k in ("BoolLit", "NumLit", "Generated"):
        return ["⟦N.0⟧"]
    if k == "StrLit":
        return ['"⟦N.0⟧"']
    if k == "CharLit":
        return ["'⟦N.0⟧'"]
    if k == "Var":
        return ["⟦N.0⟧", "self"] if f.b.get("N.0 == 'self'") else [NAME % r"resolve_or_self\(p0\.locals,N\.0\)", r"⟦resolve_or_self\(p0\.locals,N\.0\)⟧"]
    if k == "Path":
        return ["::".join(ops("0", "⟦N.%s[%d]⟧"))]
    if k == "Array":
        return [r"\[%s,?\]" % ",".join(ops("0")), r"\[\]"][:1 if cnt("0") else 2]
    if k == "Tuple":
        o = ops("0")
        return [r"\(%s%s\)" % (",".join(o), "," if len(o) == 1 else ",?" if o else "")]
    if k == "Attr":
        return [r"⟦expr N\.0⟧\." + NAME % r"N\.1"]
    if k == "Index":
        return [r"&⟦expr N\.0⟧\[⟦expr N\.1⟧\]", r"&\(⟦expr N\.0⟧\[⟦expr N\.1⟧\]\)"]
    if k == "NamedArgument":
        return [r"⟦expr N\.1⟧"]
    if k == "Unary":
        return [r"⟦N\.0⟧ ?⟦expr N\.1⟧"]
    if k == "BinOp":
        return [r"⟦expr N\.1⟧ ?⟦N\.0⟧ ⟦expr N\.2⟧"]
    if k == "Range":
        l, r = f.of("N.1"), f.of("N.2")
        return ["%s⟦N\\.0⟧%s" % (r"⟦expr N\.1\.0⟧ ?" if l == "Some" else "", r" ?⟦expr N\.2\.0⟧" if r == "Some" else "")]
    if k == "Group":
        return [r"\(⟦expr N\.0⟧\)"]
    if k == "RustMacro":
        return ["::".join(ops("0", "⟦N.%s[%d]⟧")) + r"!\(⟦N\.1⟧\)", "::".join(ops("0", "⟦N.%s[%d]⟧")) + r"!\[⟦N\.1⟧\]", ]
    if k == "Try":
        return [r"::core::result::Result::map_err\(⟦expr N\.0⟧,\|(\w+)\|::askama::shared::Error::Custom\(::core::convert::Into::into\(\1\)\)\)\?"]
    if k == "Call":
        v = f.of("N.0")
        out = [r"⟦expr N\.0⟧\(⟦args N\.1⟧\)"]
        if v == "Var":
            out += [r"⟦resolve\(p0\.locals,N\.0@Var\.0\)\.0⟧\(⟦args N\.1⟧\)"] if f.of("resolve(p0.locals, node(Call).0@Var.0)") == "Some" else []
            out += [r"\(&self\.⟦normalize_identifier\(N\.0@Var\.0\)⟧\)\(⟦args N\.1⟧\)", r"\(self\.⟦normalize_identifier\(N\.0@Var\.0\)⟧\)\(⟦args N\.1⟧\)"] if f.of("resolve(p0.locals, node(Call).0@Var.0)") == "None" else []
        return out
    return None


def loop_special(p):
    """Attributes and methods of `loop` (G07)."""
    return any(c[0] == "t" and c[2] and c[1][0] == "eq" and "'loop'" in pp(c[1]) for c in p.conds)


SKIP = {"Filter"}       # G12, E03


def forms(C):
    R = C.R
    b, d = expr_paths(C)
    adt = C.P.crates["askama_parser"].adts.get("expr::Expr")
    kinds = [v[0] for v in adt["variants"]] if adt else sorted(d)
    for k in kinds:
        ps = d.get(k, [])
        R.check(any(p.ok for p in ps), "form:" + k, "expressions of this form are translated", b.where())
        if k in SKIP:
            continue
        for p in ps:
            if loop_special(p):
                continue
            if p.err:
                if k not in ("Call", "Attr"):
                    R.bad("form:%s:rejected" % k, "the form is rejected: %s" % pp(p.rv)[:80], b.where())
                continue
            ex = expected(p)
            if ex is None:
                raise Undecided("unknown form of expression %s" % k)
            t = norm(p.text)
            if odd(p.conds):
                R.bad("form:%s:order" % k, "every operand in order: %s" % pp([c for c in p.conds if c[0] == "odd"][0])[:100], b.where())
                continue
            if k in ("Path", "RustMacro") and any(c[0] == "count" and c[2] == 0 for c in p.conds):
                continue            # paths are never empty
            if k == "BinOp":
                t0 = t
            good = any(re.fullmatch(x, y) for x in ex for y in (t, unparen(t)))
            if k == "BinOp" and good:
                # the operator must not merge with a prefix operator of the right operand
                good = re.search(r"⟦N\.0⟧\s+\(?⟦expr", re.sub(r"node\(\w+\)", "N", p.raw)) is not None or "(⟦expr N.2⟧)" in t
            R.check(good, "form:%s:%s" % (k, len([c for c in p.conds if c[0] == "count"]) and p.conds[-1][2] if p.conds and p.conds[-1][0] == "count" else ""),
                    "%s is generated for %s" % (t[:160], k), b.where())


def arguments(C):
    R = C.R
    b, ps = args_paths(C, (0, 1, 2))
    seen = set()
    for conds, ops, t in ps:
        if odd(conds):
            R.bad("arguments:order", "every argument in order: %s" % pp([c for c in conds if c[0] == "odd"][0])[:100], b.where())
            continue
        n = [c[2] for c in conds if c[0] == "count" and c[1] == ("param", "p2")]
        n = n[0] if n else (0 if ("t", ("empty", ("param", "p2")), True) in conds else None)
        if n is None:
            raise Undecided("argument list")
        seen.add(n)
        u = r"(?:&?\(?\{?\(?⟦expr p2\[%d\]⟧\)?\}?\)?)"
        ok_ = re.fullmatch(",".join(u % i for i in range(n)) + ",?" * (n > 0), t) is not None and balanced(t)
        R.check(ok_, "arguments:%d" % n, "every argument once, in order: %s" % t[:120], b.where())
    R.check(seen >= {0, 1, 2}, "arguments:counts", "argument lists of any length: %s" % sorted(seen), b.where())


def balanced(t):
    st = []
    m = {")": "(", "}": "{", "]": "["}
    t = re.sub(r"⟦[^⟧]*⟧", "", t)
    for ch in t:
        if ch in "({[":
            st.append(ch)
        elif ch in m:
            if not st or st.pop() != m[ch]:
                return False
    return not st


PAT = {
    "NumLit": [r"&?⟦N\.0⟧"], "StrLit": [r'&?"⟦N\.0⟧"'], "CharLit": [r"&?'⟦N\.0⟧'"], "BoolLit": [r"&?⟦N\.0⟧"],
}


def patterns(C):
    R = C.R
    b, d = target_paths(C)
    adt = C.P.crates["askama_parser"].adts.get("node::Target")
    for k in [v[0] for v in adt["variants"]] if adt else sorted(d):
        ps = d.get(k, [])
        R.check(bool(ps), "pattern:" + k, "patterns of this form are translated", b.where())
        for conds, ops, t in ps:
            t = norm(t)
            if odd(conds):
                R.bad("pattern:%s:order" % k, "every sub-pattern in order: %s" % pp([c for c in conds if c[0] == "odd"][0])[:100], b.where())
                continue
            n = [c[2] for c in conds if c[0] == "count"]
            f = Facts(conds)
            if k in PAT:
                ex = PAT[k]
            elif k == "Name":
                ex = ["_"] if f.b.get("N.0 == '_'") else [NAME % r"N\.0"]
            elif k == "Path":
                if n == [0]:
                    continue
                ex = ["::".join(r"⟦N\.0\[%d\]⟧" % i for i in range(n[0])) if n else r"⟦join\(N\.0,'::'\)⟧"]
            elif k in ("Tuple", "Struct"):
                path = [r"⟦join\(N\.0,'::'\)⟧"] 
                ns = [c[2] for c in conds if c[0] == "count" and c[1] == ("fld", ("node", k), "1")]
                np = [c[2] for c in conds if c[0] == "count" and c[1] == ("fld", ("node", k), "0")]
                if not ns:
                    raise Undecided("sub-patterns: %s" % t[:80])
                if np:
                    path = ["::".join(r"⟦N\.0\[%d\]⟧" % i for i in range(np[0]))]
                el = r"⟦target N\.1\[%d\]⟧" if k == "Tuple" else NAME % r"N\.1\[%d\]\.0" + r":⟦target N\.1\[%d\]\.1⟧"
                es = [el % ((i,) * el.count("%d")) for i in range(ns[0])]
                comma = ("," if ns[0] == 1 and k == "Tuple" else ",?") if es else ""
                o, c = (r"\(", r"\)") if k == "Tuple" else (r"\{", r"\}")
                ex = [path[0] + o + ",".join(es) + comma + c]
            elif k == "OrChain":
                first, rest = r"⟦target first\(N\.0\)\.0⟧", r"⟦target range\(N\.0,1,lenof\(N\.0\)\)\[%d\]⟧"
                if f.of("first(node(OrChain).0)") == "None":
                    ex = ["_"]
                elif "first(" in t and n:
                    ex = [r"\|".join([first] + [rest % i for i in range(n[0])])]
                elif n and n[0]:
                    ex = [r"\|".join(r"⟦target N\.0\[%d\]⟧" % i for i in range(n[0]))]
                elif n == [0]:
                    ex = ["_", ""]
                else:
                    raise Undecided("alternatives: %s" % t[:80])
            else:
                raise Undecided("unknown form of pattern %s" % k)
            R.check(any(re.fullmatch(x, t) for x in ex), "pattern:%s:%s" % (k, n[-1] if n else ""), "%s is generated" % t[:160], b.where())
