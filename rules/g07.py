"""The code generated for a for loop, on every path of write_loop, must be (up to the names of its variables): the iterable
turned into an iterator in order, the condition applied to it with the loop pattern, a for loop over the run-time wrapper
of that iterator binding the pattern, the body inside, and the else branch under a flag that is false before the loop and
set at the start of every iteration. For loop.NAME and loop.NAME(...), the paths of the expression visitor that can be
taken with that name are selected by evaluating their conditions, for all names the visitor compares with and others:
index must be the wrapper's index plus one, index0 the index, first and last the flags, cycle the element at index modulo
length of a non-empty array, given exactly one argument; every other name must be rejected."""
from exprlib import *

ITEMS = {"⟦E⟧", "⟦E⟧.iter()", "⟦E⟧.into_iter()", "(⟦E⟧).into_iter()", "(&⟦E⟧).into_iter()", "(⟦E⟧).iter()", "(&(⟦E⟧)).into_iter()"}
ID = r"(?:_\w+|[a-zA-Z]\w*)"


def run(C):
    R = C.R
    R.floor = 25
    R.section("loop", loop, C)
    R.section("attributes", attributes, C)
    R.section("methods", methods, C)


def loop(C):
    R = C.R
    sc = scenarios(C)
    where = C._top[0].where()
    names = set()
    for conds, ops in sc.get("Loop", []):
        t = nows(code_of(ops, "p3"))
        f = Facts(conds)
        has_else = [v for k, v in f.b.items() if "else_nodes" in k]
        cond = f.of("N.0.cond")
        t = t.replace("⟦exprN.0.iter⟧", "⟦E⟧").replace("⟦targetN.0.var⟧", "⟦T⟧").replace("⟦exprN.0.cond.0⟧", "⟦C⟧").replace("⟦exprN.0.cond⟧", "⟦C⟧")
        t = t.replace("⟦BN.0.bodyNested⟧", "⟦BODY⟧").replace("⟦BN.0.else_nodesNested⟧", "⟦ELSE⟧")
        m = re.fullmatch(r"(?:⟦W⟧)*\{(?P<decl>letmut(?P<flag>%s)=false;)?(?P<lets>(?:let(?:mut)?%s=.*?;)+?)(?P<decl2>letmut(?P<flag2>%s)=false;)?for\(⟦T⟧,(?P<item>%s)\)in::askama\w*::helpers::TemplateLoop::new\((?P<src>.*?)\)\{(?P<body>.*?)\}(?P<rest>(?:⟦W⟧)*(?:if.*\})?(?:⟦W⟧)*)\}" % (ID, ID, ID, ID), t)
        if not R.check(m is not None, "loop:form", "the loop over the iterable: %s" % t[:300], where):
            continue
        flag = m.group("flag") or m.group("flag2")
        src, filt = resolve_lets(m.group("lets"), m.group("src"))
        names.add(m.group("item"))
        if src is None:
            raise Undecided("iterator of the loop: %s" % m.group("lets")[:200])
        R.check(src in ITEMS, "loop:items", "the loop visits the items of the iterable in order: %s" % src, where)
        if cond == "Some":
            R.check(filt == ["|⟦T⟧|->bool{⟦C⟧}"] or filt == ["|⟦T⟧|{⟦C⟧}"] or filt == ["|⟦T⟧|⟦C⟧"], "loop:condition", "the condition filters the items: %s" % filt, where)
        elif cond == "None":
            R.check(filt == [], "loop:condition", "no condition, no filter: %s" % filt, where)
        else:
            raise Undecided("condition of the loop")
        body = m.group("body")
        rest = m.group("rest")
        els = "⟦ELSE⟧" in t
        if True not in has_else or False in has_else:
            R.check(els, "loop:else", "the else branch is generated", where)
        ok = re.fullmatch(r"(?P<set>(?:%s=true;)?)⟦BODY⟧(?:⟦W⟧)*" % ID, body)
        if not R.check(ok is not None, "loop:body", "the body runs once per iteration: %s" % body[:120], where):
            continue
        if els:
            R.check(flag is not None and ok.group("set") == flag + "=true;", "loop:flag", "the flag is set at the start of every iteration: %s" % body[:60], where)
            R.check(re.fullmatch(r"(?:⟦W⟧)*if!%s\{⟦ELSE⟧(?:⟦W⟧)*\}(?:⟦W⟧)*" % re.escape(flag or "?"), rest) is not None, "loop:else:when", "the else branch runs exactly without iteration: %s" % rest[:120], where)
        else:
            R.check("⟦BODY⟧" not in rest and "⟦B" not in rest, "loop:rest", "nothing else follows: %s" % rest[:80], where)
    if not names:
        raise Missing("the code of loops")
    C._loop_item = names
    R.check(len(names) == 1, "loop:item", "one name for the position: %s" % sorted(names), where)


def resolve_lets(lets, src):
    """Follow the let statements: (expression of the iterable, [filters])"""
    env = {}
    depth, start, stm = 0, 0, []
    for i, ch in enumerate(lets):
        if ch in "({[":
            depth += 1
        elif ch in ")}]":
            depth -= 1
        elif ch == ";" and depth == 0:
            stm.append(lets[start:i])
            start = i + 1
    for s in stm:
        m = re.fullmatch(r"let(?:mut)?(%s)=(.*)" % ID, s)
        if not m:
            return None, []
        # the right-hand side sees the earlier meaning of a name
        rhs = m.group(2)
        mm = re.fullmatch(r"(%s)((?:\..*)?)" % ID, rhs)
        if mm and mm.group(1) in env:
            env[m.group(1)] = (env[mm.group(1)][0], env[mm.group(1)][1] + ([mm.group(2)] if mm.group(2) else []))
        else:
            env[m.group(1)] = (rhs, [])
    mm = re.fullmatch(r"(%s)((?:\..*)?)" % ID, src)
    if mm and mm.group(1) in env:
        e, ch = env[mm.group(1)]
        ch = ch + ([mm.group(2)] if mm.group(2) else [])
    else:
        e, ch = src, []
    k = e.find(".filter(")
    if k >= 0:
        ch = [e[k:]] + ch
        e = e[:k]
    out = []
    for c in ch:
        f = re.fullmatch(r"\.filter\((.*)\)", c)
        if f:
            out.append(f.group(1))
        elif c in (".into_iter()", ".by_ref()"):
            pass
        else:
            e += c
    return e, out


def select(ps, env):
    out = []
    for p in ps:
        rs = []
        for c in p.conds:
            r = evcond(c, env)
            if r is False:
                break
        else:
            out.append(p)
    return out


def item(C):
    n = getattr(C, "_loop_item", None)
    if not n or len(n) != 1:
        raise Undecided("name of the loop position")
    return re.escape(next(iter(n)))


def consts(ps):
    out = set()
    for p in ps:
        for c in p.conds:
            out |= {x[1] for x in walk(c) if isinstance(x, tuple) and len(x) == 2 and x[0] == "str" and isinstance(x[1], str)}
    return out


def attributes(C):
    R = C.R
    b, d = expr_paths(C)
    ps = d.get("Attr", [])
    it = item(C)
    want = {"index": [r"\(%s\.index\+1\)" % it], "index0": [r"\(?%s\.index\)?" % it], "first": [r"\(?%s\.first\)?" % it], "last": [r"\(?%s\.last\)?" % it]}
    N = ("node", "Attr")
    for nme in sorted(set(want) | {x for x in consts(ps) if x.isidentifier()} | {"length", "Index", "index1", "cycle", "foo", "_loop_item", "next"}):
        env = {("fld", N, "0"): ("agg", "Var", ("loop",)), ("fld", N, "1"): nme}
        sel = select(ps, env)
        oks = [p for p in sel if p.ok]
        key = "loop." + nme
        if nme in want:
            R.check(bool(oks) and not any(p.err for p in sel), key, "loop.%s is translated" % nme, b.where())
            for p in oks:
                R.check(any(re.fullmatch(x, p.text) for x in want[nme]), key + ":value", "loop.%s: %s" % (nme, p.text[:100]), b.where())
        else:
            R.check(not oks, key, "loop.%s is rejected: %s" % (nme, [p.text[:60] for p in oks]), b.where())
    # a field of that name of anything else has nothing to do with the loop
    for nme in sorted(want):
        for p in select(ps, {("fld", N, "0"): ("agg", "Var", ("other",)), ("fld", N, "1"): nme}):
            R.check(re.search(r"\b%s\b" % it, p.text) is None, "other." + nme, "other.%s: %s" % (nme, p.text[:60]), b.where())


def methods(C):
    R = C.R
    b, d = expr_paths(C)
    ps = d.get("Call", [])
    it = item(C)
    N = ("node", "Call")
    callee, args = ("fld", N, "0"), ("fld", N, "1")
    ex = r"\(?\{let(?P<a>\w+)=&\(?⟦expr node\(Call\)\.1\[0\]⟧\)?;let(?P<l>\w+)=(?P=a)\.len\(\);if(?P<l2>\w+)==0\{return::core::result::Result::Err\(.*?\);\}(?P<a2>\w+)\[%s\.index%%(?P<l3>\w+)\]\}\)?" % it
    ex = ex.replace("let(", "let (").replace("if(", "if (")
    for nme in sorted({"cycle", "foo", "index", "Cycle", "last"}):
        for n in (0, 1, 2, 3):
            env = {callee: ("agg", "Attr", (("agg", "Var", ("loop",)), nme)), ("lenof", args): n, ("empty", args): n == 0}
            sel = [p for p in select(ps, env) if not any(c[0] == "count" and c[1] == args and c[2] != n for c in p.conds)]
            oks = [p for p in sel if p.ok]
            key = "loop.%s(%d)" % (nme, n)
            if nme != "cycle" or n != 1:
                R.check(not oks, key, "rejected: %s" % [p.text[:60] for p in oks], b.where())
                continue
            R.check(bool(oks), key, "loop.cycle is translated", b.where())
            for p in oks:
                t = squash(p.text).replace("let ", "let ")
                m = re.fullmatch(ex, t)
                R.check(m is not None and m.group("l") == m.group("l2") == m.group("l3") and m.group("a") == m.group("a2"), key + ":value", "element at the position modulo the length: %s" % t[:250], b.where())
            el = ("idx", args, ("int", 0))
            em = [p for p in sel if p.err]
            R.check(all(any(c[0] == "is" and c[2] == "Array" or c[0] == "t" and c[1][0] in ("empty", "eq") for c in p.conds) for p in em), key + ":errors", "only empty arrays are rejected", b.where())
