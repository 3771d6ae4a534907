"""Every item of pending output that is an expression or the result of a filter block is followed through the function
that writes the queue: on each path its code is either wrapped in MarkupDisplay::new_unsafe with the template's escaper,
or written as it is, the latter exactly on the paths on which visiting that very expression answered Wrapped. For every
form of expression, each path of visit_expr that answers Wrapped must be a filter whose generated code is a call of the
run-time filters escape, e or safe, given an escaper and the value; these filters answer Wrapped on all paths. The result
of a filter block is queued with the answer of visiting its own filter. No other code writes to the output."""
from exprlib import *


def run(C):
    R = C.R
    R.floor = 40
    R.section("queue", queue, C)
    R.section("answers", answers, C)
    R.section("filter-block", filter_block, C)
    R.section("bypass", bypass, C)


def codetext(toks):
    """Text of the code of one item; a key looked up in the cache is the code it was stored under."""
    out = ""
    for t in toks:
        if t[0] == "s":
            out += t[1]
            continue
        if t[0] != "h":
            return out + "⟦*⟧"
        x = t[1]
        while x[0] == "call" and x[2] and x[1].split("::")[-1] in ("key", "clone", "to_string", "as_str", "trim"):
            x = x[2][0]
            if x[0] == "call" and x[1].split("::")[-1] in ("entry", "get") and len(x[2]) == 2:
                x = x[2][1]
            elif x[0] == "fld" and x[1][0] == "as":
                e = x[1][1]
                if e[0] == "call" and e[1].split("::")[-1] == "entry":
                    x = e[2][1]
        if x[0] == "code":
            out += codetext(x[1])
        else:
            out += hole(("h", x, ""))
    return out


def shared_code(pid):
    for x in walk(pid):
        if isinstance(x, tuple) and len(x) > 2 and x[0] == "call" and x[1].split("::")[-1] in ("entry", "get") and len(x[2]) == 2:
            return x[2][1]
    return None


def queue(C):
    R = C.R
    b, paths = queue_writes(C)
    n = 0
    for q in paths:
        for kind, conds, out, ops, upd in q.items:
            if kind in (None, "Lit"):
                continue
            if not q.fmt:
                R.check(not any(out.values()), "queue:plain", "an expression is written without arguments: %s" % {k: text(v)[:60] for k, v in out.items()}, b.where())
                continue
            el = ("as", q.el, kind)
            item = ("fld", el, "0")
            inner = hole(("h", ("expr", item) if kind == "Expr" else item, ""))
            W = ("wrap", "expr", (item,)) if kind == "Expr" else ("fld", el, "1")
            st = [c[2] for c in conds if c[0] == "is" and c[1] == W] + ["Unwrapped" for c in conds if c[0] == "not" and c[1] == W and "Wrapped" in c[2]] \
                + ["Wrapped" for c in conds if c[0] == "not" and c[1] == W and "Unwrapped" in c[2]]
            st = st[0] if st else None
            a = out.get(q.buf(1), ())
            if a:
                t = squash(codetext(a))
                mt = re.fullmatch(r"expr⟦.*?⟧=&?(.*?),?", t)
                if not mt:
                    raise Undecided("argument %s" % t[:100])
                code = mt.group(1)
            else:
                fh = [t for t in out.get(q.buf(0), ()) if t[0] == "h"]
                c0 = shared_code(fh[0][1]) if fh else None
                if c0 is None:
                    R.bad("queue:%s:dropped" % kind, "an item is not written: %s" % [pp(c)[:60] for c in conds[1:]], b.where())
                    continue
                code = squash(codetext((("h", c0, ""),)))
            n += 1
            raw = code in (inner, "(%s)" % inner)
            esc = re.fullmatch(r"::askama::MarkupDisplay::new_unsafe\(&?\(?%s\)?,⟦p0\.input\.escaper⟧,?\)" % re.escape(inner), code) is not None
            if st is None:
                R.bad("queue:%s:unasked" % kind, "the code of an item does not depend on its marking: %s" % code[:100], b.where())
            elif st == "Wrapped":
                R.check(raw, "queue:%s:Wrapped" % kind, "a value with its own escaping is written as it is: %s" % code[:140], b.where())
            else:
                R.check(esc, "queue:%s:Unwrapped" % kind, "every other value goes through the template's escaper: %s" % code[:140], b.where())
    if n < 4:
        raise Undecided("%d ways to write an expression" % n)


OWN = r"::askama::filters::(escape|e|safe)\((⟦[^⟧]*⟧),(⟦args [^⟧]*⟧)\)\?"
NAMES = ("safe", "escape", "e")


def answers(C):
    R = C.R
    b, d = expr_paths(C)
    name = ("fld", ("fld", ("node", "Filter"), "0"), "name")
    for k, ps in sorted(d.items()):
        for p in ps:
            if not p.ok:
                continue
            w = p.wrap
            if is_agg(w, "Wrapped"):
                mt = re.fullmatch(OWN, p.text)
                R.check(mt is not None and "escaper" in mt.group(2) and "arguments" in mt.group(3), "answer:%s:Wrapped" % k, "only the escape and the safe filter are exempt: %s" % p.text[:140], b.where())
            elif is_agg(w, "Unwrapped"):
                R.check(True, "answer:%s" % k, "", b.where())
            else:
                R.bad("answer:%s:passed-on" % k, "the answer for an operand exempts the whole expression: %s" % pp(w)[:100], b.where())
    for nme in NAMES:
        mine = [p for p in d.get("Filter", []) if p.ok and p.on(name, nme)]
        R.check(bool(mine), "answer:%s:exists" % nme, "the filter is translated", b.where())
        for p in mine:
            R.check(is_agg(p.wrap, "Wrapped"), "answer:%s:own" % nme, "the filter carries its own escaping: %s" % p.text[:100], b.where())


def filter_block(C):
    R = C.R
    sc = scenarios(C)
    b = C._top[0]
    n = 0
    for conds, ops in sc.get("FilterBlock", []):
        for i, o in enumerate(ops):
            if o[0] != "queue":
                continue
            it = o[2]
            if not is_agg(it, "Generated"):
                R.bad("filter-block:item", "the result of a filter block is queued as %s" % pp(it)[:100], b.where())
                continue
            n += 1
            f = fields(it)
            w, code = f["1"], f["0"]
            if not (code[0] == "code" and len(code[1]) == 1 and code[1][0][0] == "h"):
                raise Undecided("code of a filter block: %s" % pp(code)[:100])
            h = code[1][0][1]
            if is_agg(w, "Unwrapped"):
                R.check(True, "filter-block:answer", "", b.where())
                R.bad("filter-block:own", "a filter block with the safe filter is escaped again", b.where())
                continue
            R.check(w[0] == "wrap" and w[1:] == (h[0], h[1:]), "filter-block:answer", "the result is marked as its own filter says: %s for %s" % (pp(w)[:80], pp(h)[:80]), b.where())
            R.check(h[0] == "filter" and pp(h[1]) == pp(("fld", ("fld", ("fld", ("node", "FilterBlock"), "0"), "filters"), "name")), "filter-block:filter", "the outermost filter: %s" % pp(h)[:120], b.where())
    if not n:
        raise Undecided("no result of a filter block")


def bypass(C):
    R = C.R
    sc = scenarios(C)
    b = C._top[0]
    n = 0
    for k, lst in sorted(sc.items()):
        for conds, ops in lst:
            for i, o in enumerate(ops):
                if o[0] == "emit":
                    t = text(o[2], ops[:i])
                    n += 1
                    if re.search(r"write(_str|_char|_fmt|!|ln!)|\bwriter\b(?!\s*=)|MarkupDisplay", t):
                        R.bad("bypass:" + k, "code writes to the output without the queue: %s" % nows(t)[:100], b.where())
            for o in ops:
                if o[0] == "queue" and is_agg(o[2]):
                    R.check(o[2][2] in ("Expr", "Generated"), "bypass:%s:queue" % k, "expressions are queued as expressions: %s" % pp(o[2])[:80], b.where())
    bx, d = expr_paths(C)
    for k, ps in sorted(d.items()):
        for p in ps:
            R.check(not re.search(r"\bwriter\b|MarkupDisplay", p.raw), "bypass:expr:" + k, "the code of an expression does not write: %s" % p.text[:80], bx.where())
    R.check(n > 50, "bypass:emits", "code pieces looked at: %d" % n, b.where())
