"""Abstract models of the std functions that the analysed code uses."""
from mir import strip_generics
from terms import *
from flow import IDENT, Undecided

I = {}


def m(*names):
    def d(fn):
        for n in names:
            I[n] = fn
        return fn
    return d


CANON = {}


def canon(p):
    """Strip crate aliases: core/alloc -> std; inherent impls on str/slice/option."""
    if p in CANON:
        return CANON[p]
    q = p
    for a in ("core::", "alloc::"):
        if q.startswith(a):
            q = "std::" + q[len(a):]
    q = q.replace("<core::", "<std::").replace("<alloc::", "<std::")
    q = q.replace("std::str::<impl str>::", "str::").replace("std::slice::<impl [T]>::", "slice::")
    q = q.replace("std::char::methods::<impl char>::", "char::").replace("<impl char>::", "char::")
    for ty in ("str", "[T]", "char", "u8", "usize", "[u8]"):
        for pre in ("std::str::", "std::slice::", "std::char::methods::", "std::num::", "std::slice::ascii::", ""):
            q = q.replace(pre + "<impl %s>::" % ty, {"[T]": "slice", "[u8]": "slice"}.get(ty, ty) + "::")
    if q.startswith("std::str::") and q.count("::") == 2 and q.split("::")[2] not in ("from_utf8", "from_utf8_unchecked"):
        q = "str::" + q.split("::")[2]
    if q.startswith("std::slice::") and q.count("::") == 2:
        q = "slice::" + q.split("::")[2]
    CANON[p] = q
    return q


PURE_PREFIX = ("std::", "str::", "slice::", "char::", "nom::", "<str", "<std", "u8::", "usize::")


def model(E, fr, st, gp, rp, f, args, line, dty):
    g = canon(gp)
    if g in IDENT:
        return ident(E, st, args[0], g)
    h = I.get(g)
    if h is None and rp is not None:
        h = I.get(canon(rp))
    if h is not None:
        C = Ctx(E, fr, st, f, args, line, dty, g, rp)
        r = h(C)
        if r is not None:
            return r
    if g.startswith(PURE_PREFIX):
        E.unmodelled.add(g)
    return None


class Ctx:
    def __init__(self, E, fr, st, f, args, line, dty, g, rp):
        self.E, self.fr, self.st, self.f, self.a, self.line, self.dty, self.g, self.rp = E, fr, st, f, args, line, dty, g, rp

    def val(self, i):
        return self.E.deref(self.st, self.a[i])

    def norm(self, i):
        return self.E.norm(self.st, self.a[i])

    def ret(self, v):
        return [(self.st, v)]

    def targ(self, i=0):
        a = self.f[3]
        return a[i] if i < len(a) else ""

    def apply(self, st, fn, args):
        return self.E.apply(self.fr, st, fn, args)


def ident(E, st, v, g=""):
    if g in ("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::option::Option::cloned",
             "std::option::Option::copied", "std::string::ToString::to_string", "slice::to_vec"):
        return [(st, E.deref(st, v) if v[0] == "ref" else v)]
    return [(st, v)]


# ---- variants --------------------------------------------------------------------------------
def fork_variant(C, x, a, b, payload_a=True, payload_b=False):
    """Fork on an enum value having two variants a|b: yields (state, variant, payload)."""
    E = C.E
    out = []
    base = x
    s = E.assume_is(C.st, base, a)
    if s is not None:
        out.append((s, a, E.proj(E.proj(base, ("d", a)), ("f", "0")) if payload_a else None))
    s = E.assume_not(C.st, base, (a,), [a, b])
    if s is not None:
        out.append((s, b, E.proj(E.proj(base, ("d", b)), ("f", "0")) if payload_b else None))
    return out


def opt(C, x):
    return fork_variant(C, x, "Some", "None")


def res(C, x):
    return fork_variant(C, x, "Ok", "Err", True, True)


def refto(C, st, v):
    return v


@m("std::ops::Try::branch")
def _(C):
    x = C.E.deref(C.st, C.a[0]) if C.a[0][0] == "ref" else C.a[0]
    t = C.targ(0)
    out = []
    if "option::Option" in t.split("<")[0]:
        for s, v, p in opt(C, x):
            out.append((s, agg("std::ops::ControlFlow", "Continue", [("0", p)]) if v == "Some" else
                        agg("std::ops::ControlFlow", "Break", [("0", NONE)])))
    else:
        for s, v, p in res(C, x):
            out.append((s, agg("std::ops::ControlFlow", "Continue", [("0", p)]) if v == "Ok" else
                        agg("std::ops::ControlFlow", "Break", [("0", err(p))])))
    return out


@m("std::ops::FromResidual::from_residual")
def _(C):
    return C.ret(C.a[0])


@m("std::ops::Try::from_output")
def _(C):
    return C.ret(ok(C.a[0]) if "result" in C.targ(0) else some(C.a[0]))


@m("std::option::Option::is_some", "std::result::Result::is_ok")
def _(C):
    x = C.val(0)
    v = "Some" if "Option" in C.g else "Ok"
    r = C.E.is_variant(C.st, x, v)
    return C.ret(("bool", r) if r is not None else ("isv", x, v))


@m("std::option::Option::is_none", "std::result::Result::is_err")
def _(C):
    x = C.val(0)
    v = "None" if "Option" in C.g else "Err"
    r = C.E.is_variant(C.st, x, v)
    return C.ret(("bool", r) if r is not None else ("isv", x, v))


@m("std::option::Option::map")
def _(C):
    out = []
    for s, v, p in opt(C, C.val(0)):
        if v == "None":
            out.append((s, NONE))
        else:
            out += [(s2, some(r)) for s2, r in C.apply(s, C.a[1], [p])]
    return out


@m("std::option::Option::inspect")
def _(C):
    out = []
    for s, v, p in opt(C, C.val(0)):
        if v == "None":
            out.append((s, NONE))
        else:
            out += [(s2, some(p)) for s2, r in C.apply(s, C.a[1], [p])]
    return out


@m("std::option::Option::and_then")
def _(C):
    out = []
    for s, v, p in opt(C, C.val(0)):
        out += [(s, NONE)] if v == "None" else C.apply(s, C.a[1], [p])
    return out


@m("std::option::Option::filter")
def _(C):
    out = []
    for s, v, p in opt(C, C.val(0)):
        if v == "None":
            out.append((s, NONE))
            continue
        for s2, r in C.apply(s, C.a[1], [p]):
            for s3, b in C.E.branch(s2, r):
                out.append((s3, some(p) if b else NONE))
    return out


@m("std::option::Option::is_some_and")
def _(C):
    out = []
    for s, v, p in opt(C, C.val(0)):
        out += [(s, FALSE)] if v == "None" else C.apply(s, C.a[1], [p])
    return out


@m("std::option::Option::is_none_or")
def _(C):
    out = []
    for s, v, p in opt(C, C.val(0)):
        out += [(s, TRUE)] if v == "None" else C.apply(s, C.a[1], [p])
    return out


@m("std::option::Option::map_or")
def _(C):
    out = []
    for s, v, p in opt(C, C.val(0)):
        out += [(s, C.a[1])] if v == "None" else C.apply(s, C.a[2], [p])
    return out


@m("std::option::Option::map_or_else")
def _(C):
    out = []
    for s, v, p in opt(C, C.val(0)):
        out += C.apply(s, C.a[1], []) if v == "None" else C.apply(s, C.a[2], [p])
    return out


@m("std::option::Option::unwrap_or")
def _(C):
    return [(s, C.a[1] if v == "None" else p) for s, v, p in opt(C, C.val(0))]


@m("std::option::Option::unwrap_or_else")
def _(C):
    out = []
    for s, v, p in opt(C, C.val(0)):
        out += C.apply(s, C.a[1], []) if v == "None" else [(s, p)]
    return out


def default_of(ty):
    if ty.startswith("(") and ty.endswith(")"):
        parts, d, cur = [], 0, ""
        for c in ty[1:-1]:
            d += c in "(<[" or 0
            d -= c in ")>]" or 0
            if c == "," and d == 0:
                parts.append(cur.strip())
                cur = ""
            else:
                cur += c
        parts += [cur.strip()] if cur.strip() else []
        vals = [default_of(x) for x in parts]
        return None if None in vals else tup(*vals)
    if ty.startswith("std::string::String") or ty.endswith("str"):
        return ("code", ())
    if ty in ("usize", "u8", "u32", "i32", "u64", "u16", "i64"):
        return ("int", 0)
    if ty == "bool":
        return FALSE
    if "option::Option" in ty.split("<")[0]:
        return NONE
    if "vec::Vec" in ty.split("<")[0]:
        return ("vec", ())
    return None


@m("std::option::Option::unwrap_or_default")
def _(C):
    d = default_of(C.targ(0)) or ("call", "default", ())
    return [(s, d if v == "None" else p) for s, v, p in opt(C, C.val(0))]


@m("std::option::Option::unwrap", "std::option::Option::expect", "std::option::Option::unwrap_unchecked")
def _(C):
    x = C.val(0)
    s = C.E.assume_is(C.st, x, "Some")
    if s is None:
        C.E.panics += 1
        return []
    return [(s, C.E.proj(C.E.proj(x, ("d", "Some")), ("f", "0")))]


@m("std::result::Result::unwrap", "std::result::Result::expect")
def _(C):
    x = C.val(0)
    s = C.E.assume_is(C.st, x, "Ok")
    if s is None:
        C.E.panics += 1
        return []
    return [(s, C.E.proj(C.E.proj(x, ("d", "Ok")), ("f", "0")))]


@m("std::option::Option::ok_or")
def _(C):
    return [(s, err(C.a[1]) if v == "None" else ok(p)) for s, v, p in opt(C, C.val(0))]


@m("std::option::Option::ok_or_else")
def _(C):
    out = []
    for s, v, p in opt(C, C.val(0)):
        if v == "None":
            out += [(s2, err(r)) for s2, r in C.apply(s, C.a[1], [])]
        else:
            out.append((s, ok(p)))
    return out


@m("std::option::Option::or")
def _(C):
    return [(s, C.a[1] if v == "None" else some(p)) for s, v, p in opt(C, C.val(0))]


@m("std::option::Option::or_else")
def _(C):
    out = []
    for s, v, p in opt(C, C.val(0)):
        out += C.apply(s, C.a[1], []) if v == "None" else [(s, some(p))]
    return out


@m("std::option::Option::and")
def _(C):
    return [(s, NONE if v == "None" else C.a[1]) for s, v, p in opt(C, C.val(0))]


@m("std::option::Option::take")
def _(C):
    E = C.E
    root, path = E.derefloc(C.st, C.a[0])
    v = E.read(C.st, root, path)
    s = C.st.copy()
    E.write(s, root, path, NONE)
    return [(s, v)]


@m("std::option::Option::replace", "std::option::Option::insert")
def _(C):
    E = C.E
    root, path = E.derefloc(C.st, C.a[0])
    v = E.read(C.st, root, path)
    s = C.st.copy()
    E.write(s, root, path, some(C.a[1]))
    return [(s, v)]


@m("std::mem::take")
def _(C):
    E = C.E
    root, path = E.locof(C.a[0])
    v = E.read(C.st, root, path)
    s = C.st.copy()
    d = default_of(C.targ(0)) or ("call", "default", (("str", strip_generics(C.targ(0))),))
    h = getattr(E, "default_value", None)
    if h is not None:
        d = h(strip_generics(C.targ(0))) or d
    E.write(s, root, path, d)
    return [(s, v)]


@m("std::mem::replace")
def _(C):
    E = C.E
    root, path = E.locof(C.a[0])
    v = E.read(C.st, root, path)
    s = C.st.copy()
    E.write(s, root, path, C.a[1])
    return [(s, v)]


@m("std::clone::Clone::clone_from")
def _(C):
    E = C.E
    root, path = E.locof(C.a[0])
    s = C.st.copy()
    E.write(s, root, path, E.norm(C.st, C.a[1]))
    return [(s, UNIT)]


@m("std::mem::swap")
def _(C):
    E = C.E
    r1, p1 = E.locof(C.a[0])
    r2, p2 = E.locof(C.a[1])
    s = C.st.copy()
    v1, v2 = E.read(s, r1, p1), E.read(s, r2, p2)
    E.write(s, r1, p1, v2)
    E.write(s, r2, p2, v1)
    return [(s, UNIT)]


@m("std::mem::drop", "std::mem::forget")
def _(C):
    return C.ret(UNIT)


@m("std::result::Result::map")
def _(C):
    out = []
    for s, v, p in res(C, C.val(0)):
        out += [(s, err(p))] if v == "Err" else [(s2, ok(r)) for s2, r in C.apply(s, C.a[1], [p])]
    return out


@m("std::result::Result::map_err")
def _(C):
    out = []
    for s, v, p in res(C, C.val(0)):
        out += [(s, ok(p))] if v == "Ok" else [(s2, err(r)) for s2, r in C.apply(s, C.a[1], [p])]
    return out


@m("std::result::Result::and_then")
def _(C):
    out = []
    for s, v, p in res(C, C.val(0)):
        out += [(s, err(p))] if v == "Err" else C.apply(s, C.a[1], [p])
    return out


@m("std::result::Result::or_else")
def _(C):
    out = []
    for s, v, p in res(C, C.val(0)):
        out += [(s, ok(p))] if v == "Ok" else C.apply(s, C.a[1], [p])
    return out


@m("std::result::Result::and")
def _(C):
    return [(s, err(p) if v == "Err" else C.a[1]) for s, v, p in res(C, C.val(0))]


@m("std::result::Result::or")
def _(C):
    return [(s, ok(p) if v == "Ok" else C.a[1]) for s, v, p in res(C, C.val(0))]


@m("std::result::Result::ok")
def _(C):
    return [(s, some(p) if v == "Ok" else NONE) for s, v, p in res(C, C.val(0))]


@m("std::result::Result::err")
def _(C):
    return [(s, some(p) if v == "Err" else NONE) for s, v, p in res(C, C.val(0))]


@m("std::result::Result::unwrap_or")
def _(C):
    return [(s, p if v == "Ok" else C.a[1]) for s, v, p in res(C, C.val(0))]


@m("std::result::Result::unwrap_or_else")
def _(C):
    out = []
    for s, v, p in res(C, C.val(0)):
        out += [(s, p)] if v == "Ok" else C.apply(s, C.a[1], [p])
    return out


@m("std::result::Result::map_or")
def _(C):
    out = []
    for s, v, p in res(C, C.val(0)):
        out += [(s, C.a[1])] if v == "Err" else C.apply(s, C.a[2], [p])
    return out


@m("std::result::Result::map_or_else")
def _(C):
    out = []
    for s, v, p in res(C, C.val(0)):
        out += C.apply(s, C.a[1], [p]) if v == "Err" else C.apply(s, C.a[2], [p])
    return out


@m("std::result::Result::is_ok_and")
def _(C):
    out = []
    for s, v, p in res(C, C.val(0)):
        out += [(s, FALSE)] if v == "Err" else C.apply(s, C.a[1], [p])
    return out


@m("std::convert::From::from")
def _(C):
    t = C.targ(0)
    src = C.targ(1)
    if t.startswith("std::string::String") or t.startswith("std::borrow::Cow") or t.startswith("std::vec::Vec") \
            or t.startswith("std::boxed::Box") or t.startswith("std::rc::Rc"):
        return ident(C.E, C.st, C.a[0])
    if t == src:
        return C.ret(C.a[0])
    return None


# ---- bool ------------------------------------------------------------------------------------
@m("bool::then_some", "std::bool::<impl bool>::then_some", "std::bool::then_some")
def _(C):
    return [(s, some(C.a[1]) if b else NONE) for s, b in C.E.branch(C.st, C.a[0])]


@m("bool::then", "std::bool::<impl bool>::then", "std::bool::then")
def _(C):
    out = []
    for s, b in C.E.branch(C.st, C.a[0]):
        out += [(s2, some(r)) for s2, r in C.apply(s, C.a[1], [])] if b else [(s, NONE)]
    return out


# ---- comparison -----------------------------------------------------------------------------
@m("std::cmp::PartialEq::eq")
def _(C):
    a, b = C.norm(0), C.norm(1)
    return C.ret(C.E.mkeq(a, b))


@m("std::cmp::PartialEq::ne")
def _(C):
    a, b = C.norm(0), C.norm(1)
    return C.ret(C.E.unop("Not", C.E.mkeq(a, b), C.st))


@m("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def _(C):
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[C.g.split("::")[-1]]
    return C.ret(C.E.binop(C.st, op, C.norm(0), C.norm(1)))


for tr, op in (("Add", "Add"), ("Sub", "Sub"), ("Mul", "Mul"), ("Div", "Div"), ("Rem", "Rem"),
               ("BitAnd", "BitAnd"), ("BitOr", "BitOr"), ("BitXor", "BitXor")):
    def mk(op):
        def f(C):
            ty = C.targ(0).lstrip("&")
            if ty in ("usize", "u8", "u32", "i32", "u64", "bool", "u16", "i64"):
                return C.ret(C.E.binop(C.st, op, C.norm(0), C.norm(1)))
            if op == "Add" and ty.startswith("std::string::String"):
                v = codecat(C, C.val(0), C.norm(1))
                return C.ret(v)
            return None
        return f
    I["std::ops::%s::%s" % (tr, tr.lower())] = mk(op)


@m("std::ops::Not::not")
def _(C):
    return C.ret(C.E.unop("Not", C.norm(0), C.st))


@m("std::ops::AddAssign::add_assign")
def _(C):
    E = C.E
    root, path = E.derefloc(C.st, C.a[0])
    s = C.st.copy()
    v = E.read(s, root, path)
    if C.targ(0).startswith("std::string::String"):
        E.write(s, root, path, codecat(C, v, E.norm(s, C.a[1])))
        return [(s, UNIT)]
    E.write(s, root, path, E.binop(s, "Add", v, E.norm(s, C.a[1])))
    return [(s, UNIT)]


# ---- strings as token sequences -------------------------------------------------------------
def toks(v):
    """Token list of a string value."""
    k = v[0]
    if k == "code":
        return v[1]
    if k == "str":
        return (("s", v[1]),) if v[1] else ()
    if k == "char":
        return (("s", v[1]),)
    if k == "int":
        return (("s", str(v[1])),)
    if k == "fmt":
        out = ()
        for p in v[1]:
            if p[0] == "s":
                out += (p,)
            elif p[2] == "":
                out += toks(p[1])
            else:
                out += (("h", p[1], p[2]),)
        return out
    return (("h", v, ""),)


def squeeze(ts):
    out = []
    for t in ts:
        if t[0] == "s" and out and out[-1][0] == "s":
            out[-1] = ("s", out[-1][1] + t[1])
        else:
            out.append(t)
    return tuple(out)


def codecat(C, a, b):
    if a[0] in ("code", "str", "fmt"):
        return ("code", squeeze(toks(a) + toks(b)))
    return ("code", squeeze(toks(a) + toks(b)))


@m("std::string::String::new")
def _(C):
    return C.ret(("code", ()))


@m("std::string::String::with_capacity")
def _(C):
    return C.ret(("code", ()))


@m("std::string::String::push_str", "std::string::String::push", "std::fmt::Write::write_str_")
def _(C):
    E = C.E
    root, path = E.derefloc(C.st, C.a[0])
    v = E.read(C.st, root, path)
    x = E.norm(C.st, C.a[1])
    if v[0] in ("code",):
        s = C.st.copy()
        E.write(s, root, path, codecat(C, v, x))
        return [(s, UNIT)]
    return None


@m("std::fmt::Arguments::from_str", "std::fmt::rt::<impl std::fmt::Arguments>::from_str",
   "std::fmt::rt::<impl std::fmt::Arguments<'a>>::from_str")
def _(C):
    return C.ret(("fmt", (("s", C.norm(0)[1]),)) if C.norm(0)[0] == "str" else ("fmt", (("h", C.norm(0), ""),)))


def decode_template(b, args):
    out, i, ai = [], 0, 0
    b = list(b)
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(("s", bytes(b[i:i + n]).decode("utf8", "replace")))
            i += n
        elif n == 0x80:
            ln = b[i] | (b[i + 1] << 8)
            i += 2
            out.append(("s", bytes(b[i:i + ln]).decode("utf8", "replace")))
            i += ln
        elif n & 0xC0 == 0xC0:
            spec = ""
            if n & 1:
                flags = b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24
                i += 4
                spec += "f%x" % flags
            for bit, ind, c in ((2, 16, "w"), (4, 32, "p")):
                if n & bit:
                    x = b[i] | b[i + 1] << 8
                    i += 2
                    spec += "%s%d" % (c, x) if not n & ind or x >= len(args) else "%s$%s$" % (c, pp(args[x][1]))
            if n & 8:
                ai = b[i] | b[i + 1] << 8
                i += 2
            a = args[ai] if ai < len(args) else ("opaque", "arg")
            ai += 1
            kind, v = a if isinstance(a, tuple) and len(a) == 2 and a[0] in ("display", "debug", "other") else ("other", a)
            sp = ({"display": "", "debug": "?"}.get(kind, kind))
            if spec:
                sp += ":" + spec
            out.append(("h", v, sp))
        else:
            raise Undecided("fmt template byte %x" % n)
    return tuple(out)


@m("std::fmt::rt::Argument::new_display", "std::fmt::rt::Argument::new_debug", "std::fmt::rt::Argument::new_lower_hex",
   "std::fmt::rt::Argument::from_usize", "std::fmt::rt::Argument::new_upper_hex", "std::fmt::rt::Argument::new_pointer")
def _(C):
    n = C.g.split("::")[-1]
    kind = {"new_display": "display", "new_debug": "debug"}.get(n, n)
    return C.ret(("fmtarg", kind, C.norm(0)))


@m("std::fmt::Arguments::new", "std::fmt::rt::<impl std::fmt::Arguments>::new", "std::fmt::Arguments::new_v1",
   "std::fmt::Arguments::new_const")
def _(C):
    t = C.norm(0)
    a = C.norm(1) if len(C.a) > 1 else ("arr", ())
    if t[0] != "bytes":
        return None
    args = []
    for x in (a[1] if a[0] == "arr" else ()):
        x = C.E.norm(C.st, x)
        if x[0] == "fmtarg":
            args.append((x[1] if x[1] in ("display", "debug") else "other", x[2]))
        else:
            args.append(("other", x))
    return C.ret(("fmt", decode_template(t[1], args)))


@m("std::fmt::format", "std::fmt::Arguments::to_string_")
def _(C):
    v = C.norm(0)
    return C.ret(("code", squeeze(toks(v))))


@m("str::to_string", "str::to_owned", "str::into_string", "std::string::String::from", "str::into_boxed_str")
def _(C):
    return ident(C.E, C.st, C.a[0])


@m("str::len", "std::string::String::len", "slice::len", "std::vec::Vec::len")
def _(C):
    return C.ret(C.E.lenof(C.st, C.norm(0)))


@m("str::is_empty", "std::string::String::is_empty", "slice::is_empty", "std::vec::Vec::is_empty")
def _(C):
    v = C.norm(0)
    if v[0] == "code" and all(t[0] == "s" for t in v[1]):
        return C.ret(("bool", not v[1]))
    if v[0] == "code" and any(t[0] == "s" and t[1] for t in v[1]):
        return C.ret(FALSE)
    if v[0] == "str":
        return C.ret(("bool", v[1] == ""))
    if v[0] in ("vec", "arr") and not any(x[0] == "star" for x in v[1]):
        return C.ret(("bool", not v[1]))
    if v[0] in ("vec", "arr") and any(x[0] != "star" for x in v[1]):
        return C.ret(FALSE)
    return C.ret(("empty", v))


# ---- vectors ----------------------------------------------------------------------------------
@m("std::vec::Vec::new", "std::vec::Vec::with_capacity")
def _(C):
    return C.ret(("vec", ()))


@m("std::vec::Vec::push")
def _(C):
    E = C.E
    root, path = E.derefloc(C.st, C.a[0])
    v = E.read(C.st, root, path)
    s = C.st.copy()
    if v[0] == "arr":
        v = ("vec", v[1])
    if v[0] == "vec":
        E.write(s, root, path, ("vec", v[1] + (C.a[1],)))
        return [(s, UNIT)]
    return None


@m("std::vec::Vec::insert")
def _(C):
    E = C.E
    root, path = E.derefloc(C.st, C.a[0])
    v = E.read(C.st, root, path)
    if v[0] in ("vec", "arr") and C.a[1] == ("int", 0):
        s = C.st.copy()
        E.write(s, root, path, ("vec", (C.a[2],) + v[1]))
        return [(s, UNIT)]
    return None


@m("std::default::Default::default")
def _(C):
    h = getattr(C.E, "default_value", None)
    if h is not None:
        d = h(strip_generics(C.targ(0)))
        if d is not None:
            return C.ret(d)
    d = default_of(C.targ(0))
    if d is not None:
        return C.ret(d)
    # user Default impls are inlined
    if C.rp and C.E.prog.body(C.fr.body.crate, C.rp) is not None:
        return None
    return C.ret(("call", "default", (("str", strip_generics(C.targ(0))),)))


@m("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def _(C):
    v = C.norm(0)
    if v[0] in ("vec", "arr") and not any(x[0] == "star" for x in v[1]):
        if not v[1]:
            return C.ret(NONE)
        return C.ret(some(v[1][0 if "first" in C.g else -1]))
    if "mut" in C.g:
        return C.ret(("call", C.g, (v,)))
    return C.ret(("call", C.g, (v,)))


# ---- closures ---------------------------------------------------------------------------------
@m("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def _(C):
    f = C.a[0]
    a = C.a[1]
    args = [v for _, v in a[3]] if is_agg(a) else [a]
    fv = C.E.deref(C.st, f) if f[0] == "ref" else f
    if fv[0] in ("clo", "fn", "ctor"):
        return C.apply(C.st, fv, args)
    return None


# ---- iterators --------------------------------------------------------------------------------
def iterof(E, st, v):
    v = E.norm(st, v) if v[0] == "ref" else v
    if v[0] == "ref":
        v = E.deref(st, v)
    if v[0] == "iter":
        return v
    return ("iter", v, ())


@m("std::iter::IntoIterator::into_iter", "slice::iter", "slice::iter_mut", "std::vec::Vec::iter", "std::vec::Vec::drain_",
   "std::collections::HashMap::iter", "std::collections::HashSet::iter", "std::collections::BTreeMap::iter")
def _(C):
    return C.ret(iterof(C.E, C.st, C.a[0]))


@m("std::collections::HashMap::keys", "std::collections::HashMap::values", "std::collections::HashMap::into_values", "std::collections::HashMap::into_keys",
   "std::collections::BTreeMap::keys", "std::collections::BTreeMap::values", "str::chars", "str::bytes", "str::char_indices", "str::lines",
   "slice::windows_", "std::collections::HashMap::values_mut")
def _(C):
    v = C.norm(0)
    n = C.g.split("::")[-1].replace("into_", "").replace("values_mut", "values")
    if n == "char_indices":
        return C.ret(("iter", ("call", "chars", (v,)), (("enumerate",),)))
    return C.ret(("iter", ("call", n, (v,)), ()))


@m("std::iter::Iterator::enumerate", "std::iter::Iterator::rev", "std::iter::Iterator::peekable", "std::iter::Iterator::fuse")
def _(C):
    it = iterof(C.E, C.st, C.a[0])
    n = C.g.split("::")[-1]
    if n in ("peekable", "fuse"):
        return C.ret(it)
    return C.ret(("iter", it[1], it[2] + ((n,),)))


@m("std::iter::Iterator::map", "std::iter::Iterator::filter", "std::iter::Iterator::filter_map", "std::iter::Iterator::skip",
   "std::iter::Iterator::take", "std::iter::Iterator::take_while", "std::iter::Iterator::skip_while", "std::iter::Iterator::inspect",
   "std::iter::Iterator::flat_map", "std::iter::Iterator::map_while", "std::iter::Iterator::step_by")
def _(C):
    it = iterof(C.E, C.st, C.a[0])
    return C.ret(("iter", it[1], it[2] + ((C.g.split("::")[-1], C.a[1]),)))


@m("std::iter::Iterator::zip", "std::iter::Iterator::chain")
def _(C):
    it = iterof(C.E, C.st, C.a[0])
    ot = iterof(C.E, C.st, C.a[1])
    return C.ret(("iter", ("call", C.g.split("::")[-1], (it, ot)), ()))


@m("std::iter::Iterator::flatten", "std::iter::Iterator::sum", "std::iter::Iterator::count", "std::iter::Iterator::max", "std::iter::Iterator::min")
def _(C):
    it = iterof(C.E, C.st, C.a[0])
    n = C.g.split("::")[-1]
    if n == "flatten":
        return C.ret(("iter", it[1], it[2] + ((n,),)))
    return C.ret(("call", n, (it,)))


def elem(E, src):
    if src[0] == "call" and src[1] == "zip":
        return tup(elem_it(E, src[2][0]), elem_it(E, src[2][1]))
    if src[0] == "agg" and src[1] == "std::ops::Range":
        return ("inrange", src)
    return ("elem", src)


def elem_it(E, it):
    x = elem(E, it[1])
    for mod in it[2]:
        if mod[0] == "enumerate":
            x = tup(("ix", it[1]), x)
        elif mod[0] == "rev":
            pass
        else:
            x = ("itemof", it)
    return x


def iter_items(C, it, st, skipped=None):
    """Arbitrary item of an iterator: list of (state, item) — closures of map/filter are applied."""
    E = C.E
    src = it[1]
    base = elem(E, src)
    st = st.copy()
    st.facts = {k: v for k, v in st.facts.items() if not (mentions(k, base) or mentions(k, ("ix", src)))}
    cur = [(st, base)]
    for mod in it[2]:
        nxt = []
        for s, x in cur:
            if mod[0] == "enumerate":
                nxt.append((s, tup(("ix", src), x)))
            elif mod[0] in ("rev", "skip", "take", "step_by"):
                nxt.append((s, x))
            elif mod[0] == "flatten":
                nxt.append((s, ("elem", x)))
            elif mod[0] == "map":
                nxt += C.apply(s, mod[1], [x])
            elif mod[0] in ("filter", "take_while", "skip_while"):
                for s2, r in C.apply(s, mod[1], [x]):
                    if mod[0] == "skip_while":
                        nxt.append((s2, x))
                        continue
                    for s3, b in E.branch(s2, r):
                        if b:
                            nxt.append((s3, x))
                        elif skipped is not None and mod[0] == "filter":
                            skipped.append(s3)
            elif mod[0] in ("filter_map", "map_while"):
                for s2, r in C.apply(s, mod[1], [x]):
                    s3 = E.assume_is(s2, r, "Some")
                    if s3 is not None:
                        nxt.append((s3, E.proj(E.proj(r, ("d", "Some")), ("f", "0"))))
                    if skipped is not None and mod[0] == "filter_map":
                        s3 = E.assume_is(s2, r, "None")
                        if s3 is not None:
                            skipped.append(s3)
            elif mod[0] == "flat_map":
                for s2, r in C.apply(s, mod[1], [x]):
                    nxt.append((s2, ("elem", r)))
            elif mod[0] == "inspect":
                nxt += [(s2, x) for s2, _ in C.apply(s, mod[1], [x])]
            else:
                raise Undecided("iter mod " + mod[0])
        cur = nxt
    return cur


@m("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back", "std::iter::Peekable::next_if")
def _(C):
    E = C.E
    root, path = E.derefloc(C.st, C.a[0])
    it = E.read(C.st, root, path)
    if it[0] == "agg" and it[1].startswith("std::ops::Range"):
        it = ("iter", it, ())
    if it[0] != "iter":
        return None
    key = ("next", it)
    out = []
    src = it[1]
    # modifiers that change which elements are visited, or in which order
    odd = tuple(x[0] for x in it[2] if x[0] in ("rev", "skip", "take", "step_by", "skip_while", "take_while", "map_while"))
    if C.g.endswith("next_back"):
        odd += ("next_back",)
    if src[0] in ("vec", "arr") and not any(x[0] == "star" for x in src[1]) and not it[2] and len(src[1]) == 0:
        return [(C.st, NONE)]
    s = C.st.copy()
    s.facts = {k: v for k, v in s.facts.items() if not mentions(k, key)}
    skipped = []
    for s2, x in iter_items(C, it, s, skipped):
        s2 = s2.copy()
        s2.conds += (("iter", src, "next") + ((odd,) if odd else ()),)
        out.append((s2, some(x)))
    for s2 in skipped:
        # an element left out is an iteration that does nothing
        s2 = s2.copy()
        s2.conds += (("iter", src, "next") + ((odd,) if odd else ()),)
        out.append((s2, ("skip-iteration",)))
    if src[0] == "agg" and src[1] == "std::ops::RangeFrom" and not odd:
        return out
    s3 = s.copy()
    s3.conds += (("iter", src, "end") + ((odd,) if odd else ()),)
    out.append((s3, NONE))
    return out


def oddmods(it):
    odd = tuple(x[0] for x in it[2] if x[0] in ("rev", "skip", "take", "step_by", "skip_while", "take_while", "map_while"))
    return (odd,) if odd else ()


@m("std::iter::Iterator::any", "std::iter::Iterator::all")
def _(C):
    E = C.E
    v = E.deref(C.st, C.a[0]) if C.a[0][0] == "ref" else C.a[0]
    it = iterof(E, C.st, v)
    return C.ret((C.g.split("::")[-1], it, summarise(C, it, C.a[1])))


def summarise(C, it, clo):
    """Summary of a predicate closure over an arbitrary element: tuple of (conds, value)."""
    out = []
    n0 = len(C.st.conds)
    for s, x in iter_items(C, it, C.st):
        for s2, r in C.apply(s, clo, [x]):
            out.append((s2.conds[n0:], C.E.norm(s2, r)))
    return tuple(out)


@m("std::iter::Iterator::find", "std::iter::Iterator::position", "std::iter::Iterator::find_map", "std::iter::Iterator::rposition")
def _(C):
    E = C.E
    v = E.deref(C.st, C.a[0]) if C.a[0][0] == "ref" else C.a[0]
    it = iterof(E, C.st, v)
    n = C.g.split("::")[-1]
    out = []
    odd = oddmods(it)
    s0 = C.st.copy()
    s0.conds += (("iter", it[1], "none-found") + odd,)
    out.append((s0, NONE))
    for s, x in iter_items(C, it, C.st):
        for s2, r in C.apply(s, C.a[1], [x]):
            if n == "find_map":
                s3 = E.assume_is(s2, r, "Some")
                if s3 is not None:
                    s3 = s3.copy()
                    s3.conds += (("iter", it[1], "found") + odd,)
                    out.append((s3, r if r[0] == "agg" else some(E.proj(E.proj(r, ("d", "Some")), ("f", "0")))))
            else:
                for s3, b in E.branch(s2, r):
                    if b:
                        s3 = s3.copy()
                        s3.conds += (("iter", it[1], "found") + odd,)
                        out.append((s3, some(x if n == "find" else ("ix", it[1]))))
    return out


def iterate(C, it, each):
    """Loop over the items of an iterator; each(state, item) gives ("back", s) and ("exit", value, s). List of (state, value or None)."""
    E = C.E
    odd = oddmods(it)
    nx = ("iter", it[1], "next") + odd

    def step(s):
        n0 = len(s.conds)
        outs, skipped = [], []
        for s2, x in iter_items(C, it, s, skipped):
            s2 = s2.copy()
            s2.conds = s2.conds[:n0] + (nx,) + s2.conds[n0:]
            outs += each(s2, x)
        for s2 in skipped:
            s2 = s2.copy()
            s2.conds = s2.conds[:n0] + (nx,) + s2.conds[n0:]
            outs.append(("back", s2))
        s = s.copy()
        s.conds += (("iter", it[1], "end") + odd,)
        outs.append(("exit", None, s))
        return outs
    return [(o[2], o[1]) for o in E.loop_with(C.fr, ("loop", C.fr.fid, "fe%s" % C.line), C.st, step)]


@m("std::iter::Iterator::for_each")
def _(C):
    it = iterof(C.E, C.st, C.a[0])
    return [(s, UNIT) for s, _ in iterate(C, it, lambda s, x: [("back", s2) for s2, _ in C.apply(s, C.a[1], [x])])]


@m("std::iter::Iterator::try_for_each")
def _(C):
    E = C.E
    it = iterof(E, C.st, E.deref(C.st, C.a[0]) if C.a[0][0] == "ref" else C.a[0])
    kinds = set()

    def each(s, x):
        out = []
        for s2, r in C.apply(s, C.a[1], [x]):
            good, bad = ("Some", "None") if r[0] == "agg" and r[2] in ("Some", "None") else ("Ok", "Err")
            kinds.add(good)
            s3 = E.assume_is(s2, r, good)
            if s3 is not None:
                out.append(("back", s3))
            s3 = E.assume_is(s2, r, bad)
            if s3 is not None:
                out.append(("exit", r if r[0] == "agg" or bad == "None" else err(E.proj(E.proj(r, ("d", "Err")), ("f", "0"))), s3))
        return out
    res = iterate(C, it, each)
    if len(kinds) != 1:
        raise Undecided("try_for_each")
    done = some(UNIT) if kinds == {"Some"} else ok(UNIT)
    return [(s, done if v is None else v) for s, v in res]


@m("std::iter::Iterator::fold")
def _(C):
    E = C.E
    it = iterof(E, C.st, E.deref(C.st, C.a[0]) if C.a[0][0] == "ref" else C.a[0])
    E.fidc += 1
    root = ("L", C.fr.fid, "acc%d" % E.fidc)
    C.st = C.st.copy()
    C.st.mem[root] = C.a[1]

    def each(s, x):
        out = []
        for s2, r in C.apply(s, C.a[2], [E.read(s, root, ()), x]):
            s2 = s2.copy()
            E.write(s2, root, (), r)
            out.append(("back", s2))
        return out
    return [(s, E.read(s, root, ())) for s, _ in iterate(C, it, each)]


@m("std::iter::Extend::extend", "std::vec::Vec::extend")
def _(C):
    E = C.E
    root, path = E.derefloc(C.st, C.a[0])
    v = E.read(C.st, root, path)
    if v[0] not in ("vec", "arr"):
        return None
    it = iterof(E, C.st, C.a[1])

    def each(s, x):
        s = s.copy()
        v = E.read(s, root, path)
        E.write(s, root, path, ("vec", v[1] + (x,)))
        return [("back", s)]
    return [(s, UNIT) for s, _ in iterate(C, it, each)]


@m("std::iter::Iterator::collect", "std::iter::Iterator::last", "std::iter::Iterator::nth", "std::iter::FromIterator::from_iter")
def _(C):
    E = C.E
    v = E.deref(C.st, C.a[0]) if C.a[0][0] == "ref" else C.a[0]
    it = iterof(E, C.st, v)
    if C.g.endswith("collect") or C.g.endswith("from_iter"):
        if it[2]:
            alts = []
            n0 = len(C.st.conds)
            st0 = C.st.copy()
            st0.ev = ()
            evs = False
            for s, x in iter_items(C, it, st0):
                alts.append((s.conds[n0:], E.norm(s, x)))
                if s.ev:
                    evs = True
            if not evs:
                return C.ret(("collect", it[1], tuple(alts)) + oddmods(it))
            return None
        return C.ret(("collect", it[1], ()))
    if not it[2] and C.g.endswith("nth"):
        return C.ret(("call", "get", (it[1], E.norm(C.st, C.a[1]))))
    if not it[2] and C.g.endswith("last"):
        return C.ret(("call", "slice::last", (it[1],)))
    return C.ret(("call", C.g.split("::")[-1], tuple([it] + [E.norm(C.st, a) for a in C.a[1:]])))


@m("slice::into_iter")
def _(C):
    return C.ret(iterof(C.E, C.st, C.a[0]))


@m("std::ops::Index::index", "slice::get", "std::ops::IndexMut::index_mut_")
def _(C):
    E = C.E
    v, i = C.norm(0), C.norm(1)
    if i[0] == "agg" and i[1].startswith("std::ops::Range"):
        f = dict(i[3])
        if i[1].endswith("RangeFull"):
            return C.ret(v)
        lo, hi = f.get("start", ("int", 0)), f.get("end", ("lenof", v))
        if i[1].endswith("RangeInclusive") or i[1].endswith("ToInclusive"):
            hi = C.E.binop(C.st, "Add", hi, ("int", 1))
        return C.ret(("range", v, lo, hi))
    if C.g == "slice::get":
        if v[0] in ("vec", "arr") and i[0] == "int" and not any(x[0] == "star" for x in v[1]):
            return C.ret(some(v[1][i[1]]) if i[1] < len(v[1]) else NONE)
        return C.ret(("call", "get", (v, i)))
    return C.ret(E.proj(v, ("i", i)))


@m("std::string::String::as_mut_vec_")
def _(C):
    return None


@m("std::cell::Cell::get")
def _(C):
    return None


@m("std::intrinsics::cold_path", "std::intrinsics::unlikely_", "std::rt::panic_fmt_")
def _(C):
    return C.ret(UNIT)


@m("std::slice::from_ref")
def _(C):
    return C.ret(("arr", (C.norm(0),)))


@m("std::boxed::Box::new_uninit")
def _(C):
    return C.ret(("box", C.E.fresh()))


@m("std::boxed::box_assume_init_into_vec_unsafe", "std::boxed::Box::write", "std::boxed::Box::assume_init")
def _(C):
    if C.g.endswith("write"):
        return C.ret(C.a[1])
    if C.a[0][0] == "box":
        v = C.st.mem.pop(("H", C.a[0]), None)
        for _ in range(2):
            if v is not None:
                v = C.E.proj(v, ("f", "value"))
        if v is not None and C.g.endswith("into_vec_unsafe") and v[0] == "arr":
            return C.ret(("vec", v[1]))
        if v is not None:
            return C.ret(v)
    return C.ret(C.a[0])


@m("std::str::contains", "core::str::contains", "str::contains", "std::str::starts_with", "core::str::starts_with", "str::starts_with", "std::str::ends_with", "core::str::ends_with", "str::ends_with")
def _(C):
    if C.a[1][0] != "clo":
        return None
    f = C.g.split("::")[-1]
    chars = ("call", {"contains": "chars", "starts_with": "first_char", "ends_with": "last_char"}[f], (C.norm(0),))
    it = ("iter", chars, ())
    return C.ret(("any", it, summarise(C, it, C.a[1])))
