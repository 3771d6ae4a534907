"""The code generator is analysed as a transducer: for every kind of template node, every abstract path through
Generator::handle is turned into the code it appends (string pieces, holes for expressions and patterns, bodies) and the
operations on the queue of pending output. Typestate: no code may be emitted while output is pending. Against a table of
the expected shape per kind: pending output is written before the construct and at the end of each body, inside the
body's own braces, every body is generated once from its own nodes, in order; expressions and literals are queued
unchanged; the loop over the nodes covers all of them in order; the queue is written completely and in order; the
content of a filter block goes to a string of its own which is queued, filtered, right after the block."""
from genlib import *
import re


def run(C):
    R = C.R
    R.floor = 40
    sc = scenarios(C)
    where = C._top[0].where()
    R.section("all-nodes", nodes_loop, C)
    for kind, lst in sorted(sc.items()):
        R.section("order:" + kind, order, C, kind, lst, where)
    for k in EXPECT:
        if k not in sc:
            R.bad("order:" + k, "nodes of kind %s are not handled" % k, where)
    R.section("queue", queue, C)
    R.section("write", write, C)


def nodes_loop(C):
    R = C.R
    b, E, res, _ = node_paths(C)
    _, top, src = C._top
    R.check(src == ("param", "p2"), "all-nodes:source", "the loop runs over the given nodes; is %s" % pp(src)[:60], b.where())
    R.check(not any(len(c) > 3 for a in top[2] for c in a[0] if c[0] == "iter" and c[1] == src), "all-nodes:order",
            "all nodes in order", b.where())
    n = 0
    for st, rv in res:
        if not is_agg(rv, "Ok"):
            continue
        R.check(("iter", src, "end") in st.conds, "all-nodes:end", "success only after the last node", b.where())
        lv = [e for e in st.ev if e[0] == "loop" and e[1] == top[1]]
        post = st.ev[st.ev.index(lv[0]) + 1:] if lv else st.ev
        ops = [e[1:] for e in post if e[0] == "op"]
        is_top = level_top(st.conds)
        if is_top is None:
            raise Undecided("end of handle: level unknown")
        if is_top:
            k = [i for i, o in enumerate(ops) if o[0] == "flush" and o[1] == "p0" and o[3] == "p3"]
            R.check(bool(k) and not any(o[0] in ("ws", "lit", "queue") and o[:2] != ("ws", "prepare") for o in ops[k[-1]:]),
                    "all-nodes:last-flush", "the pending output of a whole template is written at its end", b.where())
            n += 1
        R.check(not any(o[0] == "emit" and o[1] == "p3" for o in ops), "all-nodes:after", "no code after the last node", b.where())
    if not n:
        raise Undecided("no path of a whole template")


def level_top(conds):
    for c in conds:
        if c[0] in ("is", "not") and c[1] == ("param", "p4"):
            return c[2] == "Top" if c[0] == "is" else ("Top" not in c[2] and None)
        if c[0] == "t" and c[1][0] in ("isv", "eq") and mentions(c[1], ("param", "p4")):
            return c[2]
    r = [c for c in conds if mentions(c, ("param", "p4"))]
    for c in r:
        if c[0] == "not" and "Top" in c[2]:
            return False
    return None


def B(n, level="Nested"):
    return "⟦B%s:%s⟧" % (n, level)


def exp_if(F, N):
    n = F.count(N + ".branches")
    out = ""
    for i in range(n):
        b = "%s.branches[%d]" % (N, i)
        cond = F.of(b + ".cond")
        if cond is None or (cond == "None" and i == 0):
            return None
        out += "⟦W⟧"
        if cond == "Some":
            out += "}elseif" if i else "if"
            t = F.of(b + ".cond.0.target")
            if t == "Some":
                out += "let⟦target%s.cond.0.target.0⟧=&⟦expr%s.cond.0.expr⟧" % (b, b)
            else:
                out += "*(&(⟦expr%s.cond.0.expr⟧)as&bool)" % b
        else:
            out += "}else"
        out += "{" + B(b + ".nodes")
    return out + "⟦W⟧}"


def exp_match(F, N):
    out = "⟦W⟧match&⟦expr%s.expr⟧{" % N
    for i in range(F.count(N + ".arms")):
        out += "⟦target%s.arms[%d].target⟧=>{" % (N, i) + B("%s.arms[%d].nodes" % (N, i)) + "⟦W⟧}"
    return out + "}"


def else_empty(F, N):
    for k, v in F.b.items():
        if k == "empty(%s.else_nodes)" % N:
            return v
    raise Undecided("loop with or without else")


def exp_loop(F, N):
    e = else_empty(F, N)
    return re.escape("⟦W⟧{{" + B(N + ".body") + "⟦W⟧}") + ("(⟦W⟧)?" if e else re.escape("{" + B(N + ".else_nodes") + "⟦W⟧}")) + "}"


def exp_call(F, N):
    return r"⟦W⟧\{⟦B[^⟧]*\.nodes:Nested⟧⟦W⟧\}|⟦W⟧⟦B[^⟧]*\.nodes:Block⟧"


def exp_filter(F, N):
    return None


def text_is(s):
    return lambda F, N: ("text", s)


EXPECT = {
    "Lit": lambda F, N: ("text", ""), "Comment": lambda F, N: ("text", ""), "Expr": lambda F, N: ("text", ""),
    "Raw": lambda F, N: ("text", ""), "Macro": lambda F, N: ("text", ""), "Import": lambda F, N: ("text", ""),
    "Extends": lambda F, N: ("text", ""),
    "Break": lambda F, N: ("text", "⟦W⟧break;"), "Continue": lambda F, N: ("text", "⟦W⟧continue;"),
    "If": lambda F, N: (lambda x: x and ("text", x))(exp_if(F, N)),
    "Match": lambda F, N: ("text", exp_match(F, N)),
    "Loop": lambda F, N: ("braces", exp_loop(F, N)),
    "Call": lambda F, N: ("braces", exp_call(F, N)),
    "Let": lambda F, N: ("re", r"⟦W⟧(let)?⟦target%s\.var⟧(=⟦expr%s\.val\.0⟧)?;" % (re.escape(N), re.escape(N))),
    "BlockDef": lambda F, N: ("braces", r"⟦W⟧⟦B[^⟧]*\.nodes:Block⟧"),
    "Include": lambda F, N: ("braces", r"⟦W⟧⟦B[^⟧]*\.nodes:Top⟧"),
    "FilterBlock": lambda F, N: ("filter", None),
}


def order(C, kind, lst, where):
    R = C.R
    N = "N.0"
    exp = EXPECT.get(kind)
    if exp is None:
        raise Undecided("unknown kind of node %s" % kind)
    n = 0
    for conds, ops in lst:
        F = Facts(conds)
        w = exp(F, N)
        if w is None:
            continue
        n += 1
        sk = skeleton(ops)
        # operands of a chained condition, written one after the other, are the expression itself
        sk = re.sub(r"⟦expr([^⟧]*)@BinOp\.1⟧⟦\1@BinOp\.0⟧⟦expr\1@BinOp\.2⟧", r"⟦expr\1⟧", sk)
        key = "order:%s" % kind
        if F.odd():
            R.bad(key + ":all", "parts are skipped or reordered: %s" % pp(F.odd()[0])[:120], where)
        if w[0] == "text":
            R.check(sk == w[1], key, "generates %s where %s is expected" % (sk[:300], w[1][:300]), where)
        elif w[0] == "re":
            R.check(re.fullmatch(w[1], sk) is not None, key, "generates %s" % sk[:300], where)
        elif w[0] == "braces":
            R.check(re.fullmatch(w[1], braces(sk)) is not None, key, "generates %s, i.e. %s" % (sk[:300], braces(sk)[:200]), where)
        elif w[0] == "filter":
            filter_block(C, F, ops, sk, where)
        payload(R, kind, ops, where)
    if not n:
        raise Undecided("no scenario")


def payload(R, kind, ops, where):
    """What is queued."""
    q = [o[2] for o in ops if o[0] == "queue"]
    l = [o[2] for o in ops if o[0] == "lit"]
    N = ("node", kind)
    if kind == "Expr":
        R.check(len(q) == 1 and is_agg(q[0], "Expr") and q[0][3][0][1] == ("fld", N, "1") and not l, "payload:Expr",
                "the expression itself is queued, once; queued: %s" % [pp(x)[:80] for x in q], where)
        R.check(ops and ops[-1][0] == "queue" or not any(o[0] == "ws" and o[1] == "flush" for o in ops[[o[0] for o in ops].index("queue") if q else 0:]),
                "payload:Expr:last", "whitespace before the expression is queued before it", where)
    elif kind == "Lit":
        R.check(l == [("fld", N, "0")] and not q, "payload:Lit", "the literal is output once", where)
    elif kind == "Raw":
        R.check(l == [("fld", ("fld", N, "0"), "lit")] and not q, "payload:Raw", "the literal is output once", where)
    elif kind != "FilterBlock":
        R.check(not q and not l, "payload:" + kind, "nothing is queued besides whitespace: %s" % [pp(x)[:80] for x in q + l], where)


def filter_block(C, F, ops, sk, where):
    R = C.R
    m = re.fullmatch(r"⟦W⟧letmut(__filter_block⟦[^⟧]*⟧|[a-zA-Z_0-9⟦⟧()]+?)=(?:::std::string::)?String::new\(\);\{(?:#\[allow\([a-z_,]*\)\])?let(?:mut)?writer=&mut(.*?)(?:as&mutdyn::std::fmt::Write)?;" + re.escape("⟦BN.0.nodes:Nested⟧⟦W⟧}") + "(.*)", sk)
    if not R.check(m is not None, "order:FilterBlock", "generates %s" % sk[:300], where):
        return
    R.check(m.group(1) == m.group(2), "filter:writer", "the content of the block is written to %s, declared is %s" % (m.group(2), m.group(1)), where)
    R.check(m.group(3) == "", "filter:after", "no code after the block", where)
    hi = [i for i, o in enumerate(ops) if o[0] == "handle"]
    qi = [i for i, o in enumerate(ops) if o[0] == "queue"]
    if not R.check(len(qi) == 1 and qi[0] > hi[0], "filter:queued", "the filtered content is queued once, after the block", where):
        return
    R.check(not any(o[0] == "flush" or (o[0] == "ws" and o[1] == "flush") for o in ops[qi[0] + 1:]) and
            any(o[0] == "flush" for o in ops[hi[0]:qi[0]]), "filter:place", "nothing is output between the block and its filtered content", where)
    it = ops[qi[0]][2]
    fc = it[3][0][1] if is_agg(it, "Generated") else None
    holes = [t for t in fc[1] if t[0] == "h"] if fc and fc[0] == "code" else []
    ok_ = len(holes) == 1 and holes[0][1][0] == "filter" and nows(text(tuple(t for t in fc[1] if t[0] == "s"))) == ""
    if not R.check(ok_, "filter:code", "the queued code is the filter call: %s" % pp(it)[:200], where):
        return
    _, name, args = holes[0][1]
    N = ("fld", ("node", "FilterBlock"), "0")
    fl = ("fld", N, "filters")
    good = name == ("fld", fl, "name") and args[0] == "call" and args[1] == "with_first" and base(args[2][0]) in (("fld", fl, "arguments"),) 
    R.check(good, "filter:args", "the block's filter with the block's arguments: %s(%s)" % (pp(name)[:60], pp(args)[:160]), where)
    if good:
        v = args[2][1]
        vs = nows(text(v[1] if v[0] == "code" else (("h", v, ""),)))
        R.check(vs == m.group(1), "filter:input", "the filter is applied to %s; the content is in %s" % (vs, m.group(1)), where)
    R.check(fields(it)["1"] == ("wrap", "filter", (name, args)), "filter:wrap", "escaping as decided for the filter: %s" % pp(fields(it)["1"])[:100], where)


# ------------------------------------------------------------------ the queue
def write(C):
    """write_buf_writable: one write of the whole queue to the writer."""
    R = C.R
    b = C.body("askama_derive", GEN + "write_buf_writable")
    E = engine(C, drop=(GEN + "write_buf_writable",), max_depth=6)
    n = 0
    for st, rv in run_gen(C, E, b):
        if not is_agg(rv, "Ok"):
            continue
        em = [e[1:] for e in st.ev if e[0] == "op" and e[1] == "emit" and e[2] == "p1"]
        s = nows("".join(t[1] if t[0] == "s" else "⟦%d⟧" % i for i, o in enumerate(em) for t in o[2]))
        hs = [t for o in em for t in o[2] if t[0] == "h"]
        emp = [c for c in st.conds if c[0] == "t" and c[1][0] == "empty"]
        if not em:
            R.check(bool(emp) and emp[0][2], "write:empty", "no code is generated only for an empty queue", b.where())
            continue
        n += 1
        lps = [e for e in st.ev if e[0] == "loop"]
        R.check(len(lps) == 1 and loop_src(lps[0]) == ("pending", 0), "write:source", "one loop over the queue", b.where())
        odd = [c for l in lps for a in l[2] for c in a[0] if c[0] == "iter" and len(c) > 3]
        R.check(not odd, "write:order", "the queue is written in order: %s" % (odd[:1],), b.where())
        R.check(all(h[1][0] in ("code", "call") for h in hs) and len(hs) in (1, 2), "write:all", "code: %s" % s, b.where())
        if len(hs) == 1:
            R.check(re.fullmatch(r"writer\.write_str\(⟦\d+⟧\)\?;", s) is not None, "write:str", "code: %s" % s, b.where())
            R.check(set(bufs(lps[0])) == {buf_of(hs[0])}, "write:str:text", "all literals are written", b.where())
        else:
            R.check(re.fullmatch(r"::std::write!\(writer,⟦\d+⟧,⟦\d+⟧\)\?;", s) is not None, "write:fmt", "code: %s" % s, b.where())
            R.check([buf_of(h) for h in hs] == [fmtbuf(lps[0]), argbuf(lps[0])], "write:fmt:args",
                    "the format string is followed by its arguments", b.where())
    if n < 2:
        raise Undecided("paths of write_buf_writable")


def buf_of(h):
    x = h[1]
    while x[0] == "call" and x[2]:
        x = x[2][0]
    for t in x[1]:
        if t[0] == "star":
            return loc((t[2], t[3]))


def bufs(lp):
    out = {}
    for a in lp[2]:
        for e in flat_events(a[1]):
            if e[0] == "op" and e[1] == "emit":
                out.setdefault(e[2], []).append(nows(text(e[3])))
    return out


def fmtbuf(lp):
    c = [k for k, v in bufs(lp).items() if any(re.match(r"\{expr⟦", x) for x in v)]
    return c[0] if len(c) == 1 else None


def argbuf(lp):
    c = [k for k, v in bufs(lp).items() if any(x == "expr" or re.match(r"expr⟦", x) for x in v)]
    return c[0] if len(c) == 1 else None


def queue(C):
    """prepare_format: each queued item contributes exactly one piece to the format, in order."""
    R = C.R
    b = C.body("askama_derive", GEN + "prepare_format")
    E = engine(C, drop=(GEN + "write_buf_writable",), max_depth=6)
    for st, rv in run_gen(C, E, b, bufs=()):
        for lp in [e for e in st.ev if e[0] == "loop"]:
            src = loop_src(lp)
            el = ("elem", src)
            all_lit = any(c[0] == "t" and c[1][0] == "call" and c[1][1].endswith("all") and c[2] for c in st.conds)
            for a in lp[2]:
                kinds = [c[2] for c in a[0] if c[0] == "is" and c[1] == el]
                em = [e[1:] for e in a[1] if e[0] == "op" and e[1] == "emit"]
                if kinds == ["Lit"]:
                    pieces = [t for o in em for t in o[2]]
                    R.check(len(pieces) == 1 and pieces[0][0] == "h" and mentions(pieces[0][1], ("fld", ("as", el, "Lit"), "0")),
                            "queue:Lit", "a literal contributes its text once: %s" % nows(text(tuple(pieces)))[:100], b.where())
                    to = {o[1] for o in em}
                    R.check(len(bufs(lp)) == 1 or to == {fmtbuf(lp)}, "queue:Lit:format", "literals go to the format string", b.where())
                elif kinds in (["Expr"], ["Generated"]):
                    fb = fmtbuf(lp)
                    f = [nows(text(o[2])) for o in em if o[1] == fb]
                    R.check(len(f) == 1 and re.fullmatch(r"\{expr⟦.*⟧\}", f[0]) is not None, "queue:" + kinds[0],
                            "an expression contributes one placeholder: %s" % f[:2], b.where())
                elif not kinds and not em:
                    # items other than literals where all are literals
                    R.check(any(c[0] == "not" and c[1] == el and "Lit" in c[2] for c in a[0]) and lit_only(st, lp), "queue:skip",
                            "an item is dropped", b.where())
                else:
                    raise Undecided("queue item %s" % kinds)


def lit_only(st, lp):
    """The path is only taken if all items are literals."""
    for c in st.conds:
        if c[0] == "t" and c[1][0] == "call" and c[1][1].endswith("all") and c[2] is True or c[0] == "t" and c[1][0] == "all" and c[2]:
            return "'Lit'" in repr(c)
        if c[0] == "t" and c[1][0] == "call" and c[1][1].endswith("any") and c[2] is False or c[0] == "t" and c[1][0] == "any" and not c[2]:
            return True
        if c[0] == "iter" and c[2] == "none-found":
            return True
    return False
