"""Typestate analysis over the control-flow graph of every function and closure of askama_derive that returns a Result (derived
trait implementations aside). For every call or value in it that can be an error of the template or
its configuration (a compile error, a parse error, an error of the configuration file's or the attribute's syntax, an unreadable file), the failing case is followed along all
paths: through `?`, matches, conversions and adaptors that keep the failure, with the branches it rules out pruned. On each
path the function must end by returning an error or by diverging: a failure that was dropped, replaced by a default or
skipped in a loop, so that the function can go on to succeed or return something else, is a violation. No closure that can
fail may be handed to an operation that discards its failure. In functions that return no Result, failures must diverge,
except that derive_template must turn the failure of build_template into that error's own compile error, to which it may
only add, and must return the generated code of a successful build as it is. Every constructor of CompileError must keep the
text it is given, and into_compile_error must report that text."""
import re
from genlib import *

KEEP = {"map", "map_err", "and_then", "ok_or_else", "ok_or", "inspect", "inspect_err", "copied", "cloned", "as_ref", "as_mut", "as_deref", "and", "transpose",
        "flatten", "map_ok"}
PANIC = {"unwrap", "expect"}
LOSE = {"unwrap_or", "unwrap_or_default", "unwrap_or_else", "map_or", "map_or_else", "or", "or_else", "is_ok_and", "is_some_and"}
# operations that hand the result of a closure on
LAZY = {"map", "map_err", "and_then", "map_while", "try_for_each", "try_fold", "ok_or_else", "or_else", "then", "from_fn", "map_or_else", "map_or", "call_mut", "call", "call_once",
        "unwrap_or_else", "try_fold", "transpose", "then_some"}


def run(C):
    R = C.R
    R.floor = 80
    R.section("flow", flow, C)
    R.section("derive", derive, C)
    R.section("text", text, C)


def is_result(ty):
    return ty.startswith("std::result::Result<")


def ok_only(ty):
    return ty.startswith("std::result::Result<") and re.search(r", (!|std::convert::Infallible)>$", ty)


def counts(ty, nm):
    """Is the failure one of the template (or its configuration)? Searches and number parsing may fail harmlessly."""
    return re.search(r"(CompileError|ParseError|basic_toml::Error|syn::Error)>$", ty) is not None or nm.startswith("read") and ty.endswith("std::io::Error>")


def short(f):
    if f[0] != "k" or not isinstance(f[1], dict):
        return "?"
    n = f[1].get("fn")
    if not n:
        return "?"
    return mir.strip_generics(n).split("::")[-1]


def skip(b):
    """Derived implementations."""
    return re.search(r"serde|Deserialize|Visitor|std::fmt::Debug", b.path + " " + (b.trait or "")) is not None


def flow(C):
    R = C.R
    cr = C.P.crates["askama_derive"]
    n = 0
    for b in cr.bodies:
        if skip(b) or b.kind not in ("fn", "method", "closure", "assoc_fn", "Fn", "AssocFn", "Closure"):
            continue
        if not is_result(b.locals[0][0]):
            for i, f, a, d, line in b.calls():
                if not d[1] and is_result(b.locals[d[0]][0]) and counts(b.locals[d[0]][0], short(f)) and b.npath != "derive_template":
                    F = Follow(C, b)
                    n += 1
                    for why, l in F.case(("call", i)):
                        R.bad("flow:%s:%s" % (b.npath, short(f)), "%s returns no result, the failure of %s must end it: %s" % (b.npath, short(f), why), b.where(l))
                    if not F.bad:
                        R.ok("flow:%s:%s" % (b.npath, short(f)), "the failure of %s ends %s" % (short(f), b.npath), b.where(line))
            continue
        R.functions.add("askama_derive::" + b.npath)
        F = Follow(C, b)
        for src, name, line in F.sources():
            n += 1
            k = "flow:%s:%s" % (b.npath, name)
            F.bad = False
            for why, l in F.case(src):
                R.bad(k, "in %s, the failure of %s is reported: %s" % (b.npath, name, why), b.where(l))
            if not F.bad:
                R.ok(k, "in %s, the failure of %s is reported on all %d paths" % (b.npath, name, F.ends), b.where(line))
        closures(C, b)
    if n < 100:
        raise Undecided("only %d calls that can fail" % n)


def closures(C, b):
    """Closures that can fail are only given to operations that hand their result on."""
    R = C.R
    cr = C.P.crates["askama_derive"]
    for i, f, a, d, line in b.calls():
        for x in a:
            if x[0] not in ("m", "c") or x[1][1]:
                continue
            ty = b.locals[x[1][0]][0]
            m = re.search(r"\{closure@[^}]*?:(\d+):(\d+)", ty)
            if not m or not ("{closure@" in ty):
                continue
            cb = [y for y in cr.bodies if y.npath.startswith(b.npath + "::{closure") and y.line == int(m.group(1))]
            if len(cb) != 1 or not is_result(cb[0].locals[0][0]):
                continue
            nm = short(f)
            k = "closure:%s:%s" % (b.npath, nm)
            dty = b.locals[d[0]][0] if not d[1] else ""
            if is_result(dty) or nm in LAZY and not is_result(b.locals[0][0]) or nm == "map" or dty.startswith("std::ops::ControlFlow"):
                R.ok(k, "the failures of a closure are handed on by %s" % nm, b.where(line))
            elif nm in ("flat_map", "filter_map", "any", "all", "for_each", "flatten"):
                R.bad(k, "in %s, %s discards the failures of its closure" % (b.npath, nm), b.where(line))
            else:
                raise Undecided("closure given to %s in %s" % (nm, b.npath))


ERRV = {"Err", "None", "Break"}


class Follow:
    """Follows one failure. State: what is known of a local ("Err", "None", "Break", "Ok", True, False; "tok" marks that it
    holds the failure). References to known locals are kept as ("&", local)."""

    def __init__(self, C, b):
        self.C, self.b = C, b
        self.bad = False
        self.ends = 0

    def sources(self):
        b = self.b
        for i, f, a, d, line in b.calls():
            if d[1]:
                continue
            ty = b.locals[d[0]][0]
            if not is_result(ty) or ok_only(ty):
                continue
            nm = short(f)
            if nm in ("from_residual", "map", "map_err", "branch") or not counts(ty, nm):
                continue
            yield ("call", i), nm, line
        for i, bl in enumerate(b.blocks):
            if bl.get("cleanup"):
                continue
            for j, s in enumerate(bl["s"]):
                ty = b.locals[s[0][0]][0]
                if s[1][0] == "use" and not s[0][1] and is_result(ty) and not ok_only(ty) and counts(ty, "item"):
                    o = s[1][1]
                    if o[0] in ("m", "c") and o[1][1]:
                        yield ("stmt", i, j), "an item", s[2]

    def case(self, src):
        """The ways in which the failure gets lost: [(why, line)]."""
        b = self.b
        out = {}
        if src[0] == "call":
            t = b.blocks[src[1]]["t"]
            if t[4] is None:
                return []
            start = (t[4], 0, frozenset([(t[3][0], "Err")]))
        else:
            s = b.blocks[src[1]]["s"][src[2]]
            start = (src[1], src[2] + 1, frozenset([(s[0][0], "Err")]))
        seen, work = set(), [(start, None)]
        self.ends = 0
        while work:
            (bi, si, st), lost = work.pop()
            if (bi, si, st, lost) in seen:
                continue
            seen.add((bi, si, st, lost))
            if len(seen) > 60000:
                raise Undecided("too many states in %s" % b.npath)
            k = dict(st)
            bl = b.blocks[bi]
            for s in bl["s"][si:]:
                lost = self.stmt(k, s) or lost
            t = bl["t"]
            if t[0] == "ret":
                self.ends += 1
                if is_result(b.locals[0][0]) and k.get(0) == "Err":
                    continue
                self.bad = True
                out.setdefault(lost or ("it is dropped and %s goes on" % b.npath.split("::")[-1], None), True)
                continue
            for nb, nk, l in self.term(k, t):
                work.append(((nb, 0, frozenset(nk.items())), l or lost))
        return [(w, l) for (w, l) in out]

    def val(self, k, o):
        """What is known of an operand."""
        if o[0] in ("m", "c"):
            p, proj = o[1]
            v = k.get(p)
            if not proj:
                return v
            while proj and proj[0] == "*" and isinstance(v, tuple):
                v, proj = k.get(v[1]), proj[1:]
            if not proj:
                return v
            if v in ERRV and proj[0][0] == "d":
                # the payload of a Break is the residual
                return {"Break": "Err"}.get(v)
            return None
        if o[0] == "k" and isinstance(o[1], dict) and "bool" in o[1]:
            return o[1]["bool"]
        return None

    def kill(self, k, l):
        k.pop(l, None)

    def stmt(self, k, s):
        b = self.b
        (l, proj), rv = s[0], s[1]
        line = s[2] if len(s) > 2 else None
        if proj:
            return None
        v = None
        if rv[0] == "use":
            v = self.val(k, rv[1])
            if rv[1][0] in ("m", "c") and rv[1][1][1] and v == "Err" and not is_result(b.locals[l][0]):
                v = None
        elif rv[0] == "ref":
            p, pr = rv[2]
            if not pr and p in k:
                v = ("&", p)
            elif pr == ["*"] and isinstance(k.get(p), tuple):
                v = k[p]
        elif rv[0] == "agg":
            a = rv[1]
            if a[0] == "adt" and a[2] in ("Err", "Ok", "None", "Some", "Break", "Continue"):
                v = a[2]
        elif rv[0] == "discr":
            p, pr = rv[1]
            x = self.val(k, ["c", rv[1]])
            if x is not None and not isinstance(x, (tuple, bool)):
                v = ("=", x)
                for n, name in rv[3]:
                    if name == x:
                        v = ("#", n)
        elif rv[0] == "un" and rv[1] == "Not":
            x = self.val(k, rv[2])
            v = (not x) if isinstance(x, bool) else None
        if v is None:
            self.kill(k, l)
        else:
            k[l] = v
        return None

    def term(self, k, t):
        b = self.b
        kind = t[0]
        if kind == "goto":
            return [(t[1], k, None)]
        if kind == "drop":
            return [(t[2], k, None)]
        if kind == "assert":
            return [(t[1], k, None)]
        if kind == "switch":
            v = self.val(k, t[1])
            if isinstance(v, bool):
                v = ("#", int(v))
            if isinstance(v, tuple) and v[0] == "#":
                for n, tb in t[2]:
                    if n == v[1]:
                        return [(tb, k, None)]
                return [(t[3], k, None)]
            return [(x[1], dict(k), None) for x in t[2]] + [(t[3], dict(k), None)]
        if kind == "call":
            if t[4] is None:
                return []
            nm = short(t[1])
            args = [self.val(k, a) for a in t[2]]
            a0 = args[0] if args else None
            if isinstance(a0, tuple) and a0[0] == "&":
                a0 = k.get(a0[1])
            l, proj = t[3]
            nk = dict(k)
            if not proj:
                nk.pop(l, None)
            ty = b.locals[l][0] if not proj else ""
            lost = None
            v = None
            if a0 in ("Err", "None", "Break") and nm in PANIC:
                return []
            if a0 in ("Ok", "Some") and nm in ("unwrap_err", "expect_err", "expect_none"):
                return []
            if nm == "branch" and a0 in ("Err", "None"):
                v = "Break"
            elif nm == "branch" and a0 in ("Ok", "Some"):
                v = "Continue"
            elif nm == "from_residual":
                v = "Err" if is_result(ty) else "None"
            elif a0 in ("Err", "None") and nm in KEEP | {"ok", "err"}:
                if nm == "ok":
                    v = "None"
                elif nm == "err":
                    v = "Some" if a0 == "Err" else None
                elif nm in ("ok_or", "ok_or_else"):
                    v = "Err"
                else:
                    v = a0 if (is_result(ty) or ty.startswith("std::option::Option<")) else None
            elif a0 in ("Err", "None") and nm in ("is_ok", "is_some"):
                v = False
            elif a0 in ("Err", "None") and nm in ("is_err", "is_none"):
                v = True
            elif a0 in ("Err", "None") and nm in LOSE:
                lost = ("%s replaces it" % nm, t[5])
            elif a0 in ("Ok", "Some") and nm in KEEP:
                v = None
            if v is not None and not proj:
                nk[l] = v
            return [(t[4], nk, lost)]
        if kind in ("unreachable", "other", "ret", "resume", "abort"):
            return []
        raise Undecided("terminator %s" % kind)


# ------------------------------------------------------------------ the macro itself
def derive(C):
    R = C.R
    b = C.body("askama_derive", "derive_template")
    where = b.where()

    def ext(E, fr, st, a, line):
        root, path = E.derefloc(st, a[0])
        v = E.norm(st, E.read(st, root, path))
        s = st.copy()
        E.write(s, root, path, ("call", "extended", (v, E.norm(st, a[1]))))
        return [(s, UNIT)]
    E = C.engine("askama_derive", max_depth=2, vocab={"build_template": v_pure("build"), "build_skeleton": v_pure("skeleton"), "CompileError::into_compile_error": v_pure("report"),
                                                     "std::iter::Extend::extend": ext, "<proc_macro::TokenStream as std::iter::Extend>::extend": ext})
    for x in ("build_template", "CompileError::into_compile_error"):
        if x not in C.P.crates["askama_derive"].by:
            raise Missing("askama_derive::" + x)
    n = {"Ok": 0, "Err": 0}
    for st, rv in C.run(E, b):
        rv = E.norm(st, rv)
        bs = {x for c in list(st.conds) + [rv] for x in walk(c) if isinstance(x, tuple) and x[:2] == ("call", "build")}
        if len(bs) != 1:
            raise Undecided("%d builds" % len(bs))
        bt = bs.pop()
        if not any(isinstance(x, tuple) and x[:1] == ("param",) for x in walk(bt)):
            raise Undecided("build of %s" % pp(bt)[:60])
        if ("is", bt, "Ok") in st.conds:
            n["Ok"] += 1
            v = rv
            while v[0] == "fld" and v[1][0] == "as" and v[1][2] == "Ok":
                v = v[1][1]
            okv = v[0] == "call" and v[1].split("::")[-1] in ("parse", "from_str") and v[2] and v[2][0] == okof(bt)
            if not okv and not any(x == okof(bt) for x in walk(v)):
                R.bad("derive:code", "the generated code is the output: %s" % pp(rv)[:100], where)
            elif not okv:
                raise Undecided("output %s" % pp(rv)[:100])
            else:
                R.ok("derive:code", "the generated code is the output", where)
        elif ("is", bt, "Err") in st.conds:
            n["Err"] += 1
            err = ("fld", ("as", bt, "Err"), "0")
            v = rv
            parts = []

            def leaves(v):
                if v[0] == "call" and v[1] == "extended":
                    leaves(v[2][0])
                    leaves(v[2][1])
                else:
                    parts.append(v)
            leaves(v)
            rep = [x for x in parts if x[0] == "call" and x[1] == "report"]
            if not rep and any(isinstance(x, tuple) and x[:2] == ("call", "report") for x in walk(rv)):
                raise Undecided("output %s" % pp(rv)[:100])
            if R.check(bool(rep), "derive:error", "an error of the template is part of the output: %s" % pp(rv)[:100], where):
                R.check(rep[0][2] == (err,), "derive:own", "it is the template's own error: %s" % pp(rep[0])[:100], where)
        else:
            raise Undecided("outcome of the build")
    R.check(n["Ok"] > 0 and n["Err"] > 0, "derive:both", "both outcomes are handled", where)


def okof(t):
    return ("fld", ("as", t, "Ok"), "0")


def text(C):
    """The text of an error is kept."""
    R = C.R
    cr = C.P.crates["askama_derive"]
    bs = [x for x in cr.bodies if x.path.split("::")[-1] == "from" and "CompileError" in x.path and "From<" in x.path]
    bs += [x for x in cr.bodies if x.npath == "CompileError::new"]
    if len(bs) < 3:
        raise Missing("constructors of CompileError")
    MAKE = ("std::convert::Into::into", "into", "from", "to_string", "to_owned", "Borrowed", "Owned", "clone")
    for b in bs:
        E = C.engine("askama_derive", max_depth=3)
        k = "text:" + re.sub(r".*From<(.*)> for.*|.*", lambda m: m.group(1) or "new", b.path)
        for st, rv in C.run(E, b):
            rv = E.norm(st, rv)
            if not is_agg(rv):
                raise Undecided("error %s" % pp(rv)[:60])
            m = dict(rv[3]).get("msg")
            if m is None:
                raise Missing("CompileError.msg")
            while True:
                if m[0] == "call" and m[1].split("::")[-1] in MAKE and len(m[2]) == 1:
                    m = m[2][0]
                elif is_agg(m) and m[2] in ("Borrowed", "Owned"):
                    m = dict(m[3])["0"]
                elif m[0] == "code" and len(m[1]) == 1 and m[1][0][0] == "h" and m[1][0][2] == "":
                    m = m[1][0][1]
                else:
                    break
            if m == ("param", "p0"):
                R.ok(k, "the text of the error is kept", b.where())
            elif not any(x == ("param", "p0") for x in walk(m)):
                R.bad(k, "the text of the error is kept: %s" % pp(m)[:80], b.where())
            elif m[0] == "code":
                R.check(any(h[0] == "h" and h[1] == ("param", "p0") and h[2] == "" for h in m[1]), k, "the text of the error is kept: %s" % pp(m)[:80], b.where())
            else:
                raise Undecided("text %s" % pp(m)[:80])
    b = C.body("askama_derive", "CompileError::into_compile_error")
    E = C.engine("askama_derive", max_depth=2)
    for st, rv in C.run(E, b):
        rv = E.norm(st, rv)
        ns = {x for x in walk(rv) if isinstance(x, tuple) and x[:1] == ("call",) and x[1].split("::")[-2:] in (["Error", "new"], ["Error", "new_spanned"])}
        calls = [x[1].split("::")[-1] for x in walk(rv) if isinstance(x, tuple) and x[:1] == ("call",)]
        if not R.check(len(ns) == 1 and any(c in ("to_compile_error", "into_compile_error") for c in calls), "text:report", "the error becomes a compile error: %s" % pp(rv)[:100], b.where()):
            continue
        x = ns.pop()
        m = x[2][1]
        while m[0] == "call" and m[1].split("::")[-1] in MAKE and len(m[2]) == 1:
            m = m[2][0]
        R.check(m == ("fld", ("param", "p0"), "msg"), "text:shown", "the compile error shows the text: %s" % pp(m)[:80], b.where())
        R.check(x[2][0] == ("fld", ("param", "p0"), "span"), "text:span", "at the place of the error: %s" % pp(x[2][0])[:80], b.where())
