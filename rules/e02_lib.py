"""Rules about adaptors implementing fmt::Write."""
from rules import *


def escaping_writer(C, crate, w, key, sink=None, chunks=None):
    """Every Write method of the adaptor w hands its whole argument to the escaper/encoder and never writes raw text."""
    R = C.R
    ty = w[1]
    pre = "<%s as std::fmt::Write>::" % ty
    bs = bodies_of(C, crate, pre)
    if not bs:
        raise Missing(pre + "write_str")
    for b in bs:
        m = b.npath.split("::")[-1]
        E = C.engine(crate, record=lambda p: True)
        for st, rv in C.run(E, b):
            if m == "write_fmt":
                good = len(st.ev) == 1 and st.ev[0][0] == "call" and st.ev[0][1] in ("std::fmt::write", "std::fmt::Write::write_fmt") \
                    and base(st.ev[0][2][0]) == ("param", "p0") and st.ev[0][2][1] == ("param", "p1")
                R.check(good, "%s:%s" % (key, m), "formatted arguments are written through this writer again", b.where())
                continue
            sinks = [e for e in flat_events(st.ev) if e[0] == "call" and (sink or is_escape)(e)]
            arg = [sink_arg(e) for e in sinks]
            whole = len(arg) == 1 and (arg[0] == ("param", "p1") or m == "write_char" and mentions(arg[0], ("param", "p1")))
            selfw = [e for e in flat_events(st.ev) if e[0] == "call" and e[1].split("::")[-1] == "write_str" and e not in sinks
                     and base(e[2][0]) == ("param", "p0") and m == "write_char" and mentions(e[2][1], ("param", "p1"))]
            raw = [e for e in flat_events(st.ev) if e[0] == "call" and e not in sinks and e not in selfw and written(e) is not None]
            looped = any(e[0] == "loop" for e in st.ev)
            if m == "write_str" and chunks and looped and chunked(st, chunks):
                R.ok("%s:%s" % (key, m), "all chunks of the encoded argument are written")
                continue
            if m == "write_str" and looped and not raw:
                raise Undecided("loop in " + b.npath)
            R.check((whole and not selfw or len(selfw) == 1 and not sinks) and not raw, "%s:%s" % (key, m),
                    "%s passes its whole argument to the escaper and writes nothing itself; escaped: %s, raw: %s" % (
                        m, [pp(a)[:50] for a in arg], [pp(e[2][1])[:50] for e in raw]), b.where())


def chunked(st, good):
    """All that is written are the elements of one encoded argument, in order (ends with errors are left to R01)."""
    lps = [e for e in st.ev if e[0] == "loop"]
    out = [e for e in st.ev if e[0] == "call" and written(e) is not None]
    if len(lps) != 1 or any(c[0] == "iter" and len(c) > 3 for a in lps[0][2] for c in a[0]):
        return False
    src = {c[1] for a in lps[0][2] for c in a[0] if c[0] == "iter"}
    if len(src) != 1 or not good(list(src)[0]):
        return False
    one = [("v", ("elem", list(src)[0]), "")]
    for a in lps[0][2]:
        ws = [written(e)[1] for e in a[1] if e[0] == "call" and written(e) is not None]
        if ws != [one] or any(c[0] == "t" for c in a[0]):
            return False
    # a path that leaves the loop early does so by a failed write of a chunk
    return all(written(e)[1] == one for e in out) and (not out or any(c[0] == "is" and c[2] == "Err" for c in st.conds))


def is_escape(e):
    return e[1].split("::")[-1] == "write_escaped" and e[2][0][0] == "fld" and e[2][0][2] == "escaper"


def sink_arg(e):
    if e[1].split("::")[-1] == "write_escaped":
        return e[2][2]
    for x in walk(e[2]):
        if isinstance(x, tuple) and x[:1] == ("call",) and str(x[1]).split("::")[-1].endswith("percent_encode"):
            return x[2][0]
    return None
