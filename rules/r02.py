"""Every forwarding method is reduced to its abstract paths: the reference impl and the object-safe impl must make exactly
one call, to the method of the same meaning of the underlying template type, with the receiver and writer passed
through and its result returned; the associated constants must be the underlying type's constants of the same name.
render must render into the empty string it returns; write_into must write the display form, and the object-safe
display form must render into the formatter."""
from rules import *

CALLS = ("render", "render_into", "write_into", "dyn_render", "dyn_render_into", "dyn_write_into")


def run(C):
    R = C.R
    R.floor = 14
    T = "<&T as Template>::"
    D = "<T as DynTemplate>::"
    R.section("ref render_into", fwd, C, T + "render_into", {"render_into"}, 2)
    for n in ("render", "write_into"):
        if C.P.crates["askama"].by.get(T + n):
            R.section("ref " + n, fwd, C, T + n, {n}, 1 if n == "render" else 2)
        else:
            R.ok("ref " + n, "provided method")
    for c in ("EXTENSION", "SIZE_HINT", "MIME_TYPE"):
        R.section("ref " + c, const, C, T + c, c)
    R.section("dyn_render", fwd, C, D + "dyn_render", {"render"}, 1)
    R.section("dyn_render_into", fwd, C, D + "dyn_render_into", {"render_into"}, 2)
    R.section("dyn_write_into", fwd, C, D + "dyn_write_into", {"write_into"}, 2)
    for f, c in (("extension", "EXTENSION"), ("size_hint", "SIZE_HINT"), ("mime_type", "MIME_TYPE")):
        R.section("dyn " + f, const, C, D + f, c)
    R.section("render", render, C)
    R.section("write_into", fwd, C, "Template::write_into", set(), 2)
    for b in C.P.crates["askama"].bodies:
        if b.npath.startswith("<") and "dyn DynTemplate" in b.npath and b.npath.endswith("as std::fmt::Display>::fmt"):
            R.section("dyn display", fwd, C, b.npath, {"dyn_render_into"}, 2)
            break
    else:
        raise Missing("Display for dyn DynTemplate")


def engine(C):
    def h(name):
        def f(E, fr, st, args, line):
            return E.opaque_call(fr, st, "Template::" + name, args, line)
        return f
    voc = {}
    for n in CALLS:
        for p in ("Template::", "DynTemplate::", "<&T as Template>::", "<T as DynTemplate>::"):
            voc[p + n] = h(n)
    return C.engine("askama", vocab=voc, record=lambda p: True)


def const(C, path, name):
    b = C.body("askama", path)
    for st, rv in C.run(engine(C), b):
        C.R.check(rv == ("const", "Template::" + name) and not st.ev, path.split(" as ")[0][1:] + ":" + name,
                  "%s is the template's %s; is %s" % (path, name, pp(rv)[:60]), b.where())


def result_of(rv, conds, T):
    if rv == T:
        return True
    if is_agg(rv, "Ok"):
        return ("is", T, "Ok") in conds and rv[3][0][1] in (("fld", ("as", T, "Ok"), "0"), UNIT)
    if is_agg(rv, "Err"):
        return ("is", T, "Err") in conds
    return False


def fwd(C, path, names, nargs):
    R = C.R
    b = C.body("askama", path)
    key = path
    for st, rv in C.run(engine(C), b):
        evs = [e for e in st.ev if e[0] == "call" and not e[1].endswith("::from")]
        if len(evs) != 1 or len(evs) != len([e for e in st.ev if not (e[0] == "call" and e[1].endswith("::from"))]):
            R.bad(key, "%s does not forward with one call; calls %s" % (path, [e[1] if e[0] == "call" else "loop" for e in st.ev]), b.where())
            continue
        e = evs[0]
        n = e[1].split("::")[-1]
        if n in ("write_fmt", "fmt") and "write_into" in path or n in ("fmt",) and "DynTemplate" in path:
            w = written(e)
            ok_ = w is not None and base(w[0]) == ("param", "p1") and w[1] == [("v", ("param", "p0"), "")]
        elif n in names:
            want = [("param", "p%d" % i) for i in range(nargs)]
            ok_ = [base(a) for a in e[2]] == want
            if path.startswith("<&T"):
                ok_ = ok_ and e[6] and e[6][0] == "T"
        else:
            ok_ = False
        R.check(ok_ and result_of(rv, st.conds, e[5]), key, "%s calls %s(%s) of %s and returns %s" % (
            path, n, ", ".join(pp(a)[:40] for a in e[2]), e[6][:1], pp(rv)[:60]), b.where())


def render(C):
    R = C.R
    b = C.body("askama", "Template::render")
    for st, rv in C.run(engine(C), b):
        ri = [e for e in st.ev if e[0] == "call" and e[1].split("::")[-1] == "render_into"]
        other = [e for e in st.ev if e[0] == "loop" or written(e) is not None]
        if len(ri) != 1:
            R.bad("render", "render calls render_into %d times" % len(ri), b.where())
            continue
        e = ri[0]
        good = e[2][0] == ("param", "p0") and base(e[2][1]) in (("code", ()), ("str", "")) and not other
        if is_agg(rv, "Ok"):
            v = rv[3][0][1]
            good = good and ("is", e[5], "Ok") in st.conds and v[0] == "mut" and base(v) == base(e[2][1]) and v[2] == e[5][3]
        else:
            good = good and result_of(rv, st.conds, e[5])
        R.check(good, "render", "render renders once into an empty string and returns it; returns %s" % pp(rv)[:80], b.where())
