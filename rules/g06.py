"""Every way the queue is written to the output must be a single write_str or write! whose result is followed by ?. On each
path of visit_expr for each form of expression the code of a filter must be the call of the filter followed by ?, unless it
calls nothing that can fail, and that of a try expression must apply ? to the expression, converting only its error. No
other code may discard a result or return early: none that is generated for any node or expression contains a return, an
unwrap, an ok() or a binding to an underscore. The render function must end by returning Ok(()) right after the body."""
from exprlib import *

DISCARD = re.compile(r"\breturn\b(?!\s*(?:::(?:core|std)::result::Result::|::askama::Result::)?Err\b)|\.ok\(\)|\bunwrap|\bexpect\(|\blet _\s*=|\bis_ok\b|\bis_err\b|\bdrop\(|\bcatch_unwind\b|\bbreak'|\.unwrap_or|\bOk\(")
OK_END = r"(?:::askama::Result::|::(?:core|std)::result::Result::)?Ok\(\(\)\)\}$"
INFALLIBLE = (r"&⟦[^⟧]*⟧", r"\*⟦[^⟧]*⟧", r"::std::format!\(.*\)")


def run(C):
    R = C.R
    R.floor = 60
    R.section("writes", writes, C)
    R.section("filters", filters, C)
    R.section("try", try_, C)
    R.section("discard", discard, C)
    R.section("end", end, C)


def writes(C):
    R = C.R
    b, paths = queue_writes(C)
    n = 0
    for q in paths:
        t = squash(codetext(q.toks))
        n += 1
        good = re.fullmatch(r"(?:writer\.write_str|::std::fmt::Write::write_str)\((?:writer,)?.*\)\?;", t) or re.fullmatch(r"(?:::(?:std|core)::)?write!\(writer,.*\)\?;", t) or re.fullmatch(r"writer\.write_fmt\(.*\)\?;", t)
        one = len(re.findall(r"\bwriter\b", t)) == 1 and t.count(";") == 1
        R.check(bool(good) and one, "write", "the result of a write is passed on: %s" % t[:140], b.where())
    R.check(n >= 2, "write:kinds", "ways to write: %d" % n, b.where())


def codetext(toks):
    """Text of code; what is written is replaced by a hole."""
    return "".join(t[1] if t[0] == "s" else "⟦x⟧" for t in toks)


def filters(C):
    R = C.R
    b, d = expr_paths(C)
    n = 0
    for p in d.get("Filter", []):
        if not p.ok:
            continue
        n += 1
        t = p.text
        if "⟦" not in t:
            continue    # a filter has at least one argument
        if any(re.fullmatch(x, t) for x in INFALLIBLE):
            R.check("filters::" not in t, "filter:format", "", b.where())
            continue
        call = re.fullmatch(r"(?:::askama::)?filters::(\w+|⟦[^⟧]*⟧)\((.*)\)\?", t)
        R.check(call is not None and balanced(call.group(2)), "filter", "the result of a filter is passed on: %s" % t[:140], b.where())
    R.check(n >= 8, "filter:paths", "paths for filters: %d" % n, b.where())
    if "Filter" not in d:
        raise Missing("filters")


def balanced(s):
    d = 0
    for ch in s:
        d += ch in "([{"
        d -= ch in ")]}"
        if d < 0:
            return False
    return d == 0


def try_(C):
    R = C.R
    b, d = expr_paths(C)
    n = 0
    for p in d.get("Try", []):
        if not p.ok:
            continue
        n += 1
        H = r"⟦expr [^⟧]*⟧"
        forms = (r"\(?%s\)?\?" % H, r"(?:::(?:core|std)::result::Result::)map_err\(%s,\|(\w+)\|(.*)\)\?" % H, r"\(?%s\)?\.map_err\(\|(\w+)\|(.*)\)\?" % H)
        ok_ = False
        for f in forms:
            mt = re.fullmatch(f, p.text)
            if mt and (not mt.groups() or balanced(mt.group(2)) and not DISCARD.search(mt.group(2))):
                ok_ = True
                if mt.groups():
                    R.check(mt.group(1) in re.findall(r"\w+", mt.group(2)), "try:error", "the error is kept: %s" % p.text[:120], b.where())
        R.check(ok_, "try", "the error of a try expression is passed on: %s" % p.text[:140], b.where())
    R.check(n > 0, "try:paths", "paths for try expressions: %d" % n, b.where())


def discard(C):
    R = C.R
    sc = scenarios(C)
    b = C._top[0]
    n = 0
    for k, lst in sorted(sc.items()):
        for conds, ops in lst:
            for i, o in enumerate(ops):
                if o[0] == "emit":
                    t = code_only(text(o[2], ops[:i]))
                    n += 1
                    if DISCARD.search(t):
                        R.bad("discard:" + k, "code discards a result or ends the rendering: %s" % nows(t)[:100], b.where())
    bx, d = expr_paths(C)
    for k, ps in sorted(d.items()):
        for p in ps:
            if p.ok:
                R.check(not DISCARD.search(code_only(p.raw)), "discard:expr:" + k, "code of an expression discards a result: %s" % p.text[:100], bx.where())
    bt, ds = target_paths(C)
    for k, ps in sorted(ds.items()):
        for conds, ops, t in ps:
            R.check("?" not in code_only(t), "pattern:" + k, "a pattern has no operations: %s" % t[:80], bt.where())
    R.check(n > 50, "discard:emits", "code pieces looked at: %d" % n, b.where())


def code_only(t):
    return re.sub(r"⟦[^⟧]*⟧", "⟦⟧", t)


def end(C):
    R = C.R
    b, ps = template_paths(C)
    where = b.where()
    n = 0
    for conds, evs, rv in ps:
        if not is_agg(rv, "Ok"):
            continue
        # everything generated after the body of the render function
        toks, started = [], False
        for e in flat_events(evs):
            if e[0] != "op":
                continue
            if e[1] == "handle":
                if started:
                    toks.append("⟦body⟧")
                started = True
                toks.append("⟦body⟧")
            elif e[1] == "emit" and e[2] == "p2":
                toks.append(code_only(text(e[3], ())))
            elif e[1] == "flush":
                toks.append("⟦write⟧")
        t = squash(re.sub(r"//[^\n]*", "", "".join(toks)))
        mt = re.search(r"fn render_into\(.*?\{(.*?)const EXTENSION", t)
        if not mt:
            raise Undecided("render function: %s" % t[:150])
        body = mt.group(1)
        n += 1
        R.check(re.search(OK_END, body) is not None, "end:ok", "rendering ends with success: %s" % body[-80:], where)
        rest = re.sub(OK_END, "", body)
        R.check(not DISCARD.search(rest), "end:only", "only after everything has been written: %s" % rest[-120:], where)
        if "⟦body⟧" in rest:
            R.check("⟦body⟧" not in rest.split("⟦write⟧")[-1] or not "⟦write⟧" in rest, "end:after", "what is pending is written first: %s" % rest[-80:], where)
    R.check(n > 0, "end", "render functions looked at: %d" % n, where)
