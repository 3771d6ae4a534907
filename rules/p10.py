"""Every place of the parser crate where the compiled program can panic is enumerated from its intermediate representation: calls
that do not return, calls of library functions documented to panic (unwrap, expect, indexing and slicing, splitting at an offset, removing
by position ...), and checked arithmetic and array bounds. Each is then decided on every path of the parser functions that reaches it:
bounds of a slice must be offsets at which a character of that text begins or its end (0, its length, an offset from char_indices of it, the
length of a beginning of it, its length less that of a rest of it), what is unwrapped must be there under the path's conditions, additions
to narrow counters must be bounded by a condition and subtractions must not fall below zero, and a call that does not return must be
unreachable. That the position in an error is a rest of the text given (P07) is used for the slices of Ast::from_str."""
from parslib import *
import p03, re

PANICKY = {
    "std::option::Option::unwrap", "std::option::Option::expect", "std::result::Result::unwrap", "std::result::Result::expect",
    "std::result::Result::unwrap_err", "std::result::Result::expect_err", "std::ops::Index::index", "std::ops::IndexMut::index_mut",
    "nom::Slice::slice", "nom::InputTake::take", "nom::InputTake::take_split", "std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut",
}
METHODS = {"str": ("split_at", "split_at_mut"), "slice": ("split_at", "split_at_mut", "copy_from_slice", "clone_from_slice", "swap", "chunks", "windows", "chunks_exact", "copy_within", "rotate_left", "rotate_right"),
           "Vec": ("remove", "swap_remove", "insert", "drain", "split_off", "splice"), "VecDeque": ("insert", "swap", "split_off", "drain"),
           "String": ("remove", "insert", "insert_str", "truncate", "split_off", "drain", "replace_range"), "char": ("from_digit", "to_digit"),
           "Iterator": ("step_by",)}


def short(n):
    n = re.sub(r"<impl (\[T\]|str)>", lambda m: "slice" if "[" in m.group(1) else "str", n)
    return n.split("::")


def panicky(n):
    if not n:
        return False
    if n in PANICKY:
        return True
    s = short(n)
    return len(s) >= 2 and s[-1] in METHODS.get(s[-2], ())


class Sites(p03.Levels):
    def __init__(self, C):
        self.seen = {}
        p03.Levels.__init__(self, C, nts=KNOWN - {"State::nest"}, extra={p03.GET: p03.h_get, p03.SET: p03.h_set, "std::cell::Cell::replace": p03.h_replace})

    def engine(self):
        return watch(p03.Levels.engine(self), self.seen)


def watch(E, seen):
    orig = E.call

    def rec(fr, st, line, kind, info):
        L = seen.setdefault((fr.body.npath, line, kind), [])
        if len(L) < 400:
            L.append((E, st, info))

    def call(fr, st, f, args, line, dty=None):
        g = E.deref(st, f) if f[0] == "ref" else f
        if g[0] == "fn":
            gp, rp = E.callee_names(g)
            n = gp if panicky(gp) else rp if panicky(rp) else None
            if n:
                rec(fr, st, line, short(n)[-1], [E.norm(st, a) for a in args])
        return orig(fr, st, f, args, line, dty)

    def on_assert(fr, st, t):
        m = re.match(r"Overflow\((\w+), (.*), (.*)\)$", t[2])
        if m:
            rec(fr, st, t[3], "overflow", [m.group(1)] + [operand(E, fr, st, o) for o in m.groups()[1:]])
            return
        m = re.match(r"(?:DivisionByZero|RemainderByZero)\((.*)\)$", t[2])
        if m:
            d = operand(E, fr, st, m.group(1))[0]
            # the message names the dividend; the divisor is in the condition
            rec(fr, st, t[3], t[2].split("(")[0], [d, fr, t])
            return
        m = re.match(r"(\w+)", t[2])
        if m and m.group(1) not in ("MisalignedPointerDereference", "NullPointerDereference"):
            rec(fr, st, t[3], m.group(1), [t[2]])

    E.call = call
    E.on_assert = on_assert
    E.on_diverge = lambda fr, st, f, args, line: rec(fr, st, line, "panic", [f])
    return E


def operand(E, fr, st, o):
    """(value, type)"""
    k = re.match(r"(?:copy|move) _(\d+)$", o)
    if k:
        i = int(k.group(1))
        return E.norm(st, E.rdroot(st, ("L", fr.fid, i))), str(fr.body.locals[i][0])
    k = re.match(r"const (-?\d+)_(\w+)$", o)
    if k:
        return ("int", int(k.group(1))), k.group(2)
    return None, None


def inventory(C, crate):
    """The sites: {(function, line, kind)}"""
    out = {}
    from mir import strip_generics
    for b in crate.bodies:
        if "tests" in b.npath.split("::"):
            continue
        for bl in b.blocks:
            t = bl["t"]
            if t[0] == "assert":
                k = re.match(r"(\w+)", t[2]).group(1)
                if k == "Overflow":
                    k = "overflow"
                if k not in ("MisalignedPointerDereference", "NullPointerDereference"):
                    out[(b.npath, t[3], k)] = b
            elif t[0] == "call":
                f = t[1][1] if t[1][0] == "k" and isinstance(t[1][1], dict) else {}
                ns = [strip_generics(x) for x in (f.get("fn"), f.get("res")) if x]
                if t[4] is None:
                    out[(b.npath, t[5], "panic")] = b
                for n in ns:
                    if panicky(n):
                        out[(b.npath, t[5], short(n)[-1])] = b
                        break
    return out


def run(C):
    R = C.R
    R.floor = 12
    crate = C.P.crates[CR]
    sites = inventory(C, crate)
    R.section("sites", lambda C: decide(C, crate, sites), C)


def decide(C, crate, sites):
    R = C.R
    G = Sites(C)
    for n in sorted(G.nts):
        if n in crate.by:
            R.section("paths:" + n, lambda C, n=n: G.paths(n), C)
    R.section("paths:from_str", lambda C: G.paths("Ast::from_str"), C)
    # what no parser function reaches is looked at on its own
    left = {b.npath: b for k, b in sites.items() if k not in G.seen}
    own = {}
    for n, b in sorted(left.items()):
        R.section("alone:" + n, lambda C, b=b: C.run(watch(C.engine(CR, max_depth=4), own), b), C)
    count = {}
    for k, b in sorted(sites.items(), key=lambda x: (x[0][0], x[0][1] or 0, x[0][2])):
        fn, line, kind = k
        i = count[(fn, kind)] = count.get((fn, kind), 0) + 1
        key = "%s:%s:%d" % (fn, kind, i)
        at = "%s:%s" % (b.file, line)
        found = G.seen.get(k) or own.get(k)
        if not found:
            R.undecided(key, "not reached by the analysis", at)
            continue
        bad, und = None, None
        for E, st, info in found:
            try:
                site(crate, E, st, kind, info)
            except Bad as e:
                bad = bad or str(e)
            except (Undecided, NoVal) as e:
                und = und or str(e)
        if bad:
            R.bad(key, "%s can panic: %s" % (fn, bad), at)
        elif und:
            R.undecided(key, und, at)
        else:
            R.ok(key)


class Bad(Exception):
    pass


def site(crate, E, st, kind, info):
    if kind == "panic":
        return unreachable(st)
    if kind == "overflow":
        return overflow(crate, st, *info)
    if kind in ("index", "index_mut"):
        v, r = info
        if r[0] == "agg" and r[1].startswith("std::ops::Range"):
            return slice_(crate, st, v, r)
        if "Index" in pp(r) or r[0] != "int":
            # a call through another's Index implementation, or a computed position
            if v[0] == "param" and v[1].startswith("@"):
                return
        raise Undecided("index %s" % pp(r)[:80])
    if kind in ("split_at", "take", "take_split", "truncate", "insert_str", "split_off"):
        return cut(crate, st, info[1], info[0])
    if kind in ("unwrap", "expect", "unwrap_err", "expect_err"):
        return there(E, st, info[0], kind)
    if kind == "insert" and info[1] == ("int", 0):
        return
    if kind in ("remove", "swap_remove") and info[1][0] == "int":
        v = info[0][1] if info[0][0] == "mut" else info[0]
        for n in range(info[1][1] + 1):
            verdict = [evc(c, {("lenof", v): n, ("empty", v): n == 0}) for c in st.conds]
            if False not in verdict:
                if any(mentions(c, v) for c in st.conds):
                    raise Undecided("%s of element %d" % (kind, info[1][1]))
                raise Bad("removes element %d of what may have %d" % (info[1][1], n))
        return
    raise Undecided("%s of %s" % (kind, pp(info[0])[:80] if isinstance(info[0], tuple) else info[0]))


# ------------------------------------------------------------------ slices
def slice_(crate, st, v, r):
    f = dict(r[3])
    lo, hi = f.get("start"), f.get("end")
    if r[1].endswith("Inclusive"):
        raise Undecided("inclusive range")
    for x in (lo, hi):
        if x is not None:
            cut(crate, st, x, v)
    if lo is not None and hi is not None and lo != ("int", 0) and hi != ("lenof", v):
        raise Undecided("order of %s and %s" % (pp(lo)[:60], pp(hi)[:60]))


TRIMR = ("trim_end", "trim_end_matches", "trim_right", "trim_right_matches", "strip_suffix")
TRIML = ("trim_start", "trim_start_matches", "trim_left", "trim_left_matches", "strip_prefix")
KEEP = ("enumerate", "take", "skip", "take_while", "skip_while", "filter", "peekable", "rev", "fuse", "by_ref", "inspect", "step_by")


def last(c):
    return c[1].split("::")[-1] if c[0] == "call" else ""


def unwrapped(x):
    """x of Some(x) / Ok(x)"""
    return x[1][1] if x[0] == "fld" and x[1][0] == "as" and x[1][2] in ("Some", "Ok") else None


def beginning(p, base):
    """p is a beginning of base (None: not known)"""
    if p == base:
        return True
    u = unwrapped(p)
    if u is not None and last(u) in TRIMR:
        p = u
    if last(p) in TRIMR:
        return beginning(p[2][0], base)
    if p[0] == "range" and p[2] == ("int", 0):
        return beginning(p[1], base)
    if p[0] == "fld" and p[2] == "0":
        u = unwrapped(p[1])
        c = u if u is not None else p[1]
        if last(c) in ("split_at", "split_once", "rsplit_once"):
            return beginning(c[2][0], base)
    return None


def rest(t, base, st):
    """t is a rest of base"""
    if t == base:
        return True
    u = unwrapped(t)
    if u is not None and last(u) in TRIML:
        t = u
    if last(t) in TRIML:
        return rest(t[2][0], base, st)
    if t[0] == "range" and t[3] == ("lenof", t[1]):
        return rest(t[1], base, st)
    if t[0] == "fld" and t[2] == "1":
        u = unwrapped(t[1])
        c = u if u is not None else t[1]
        if last(c) in ("split_at", "split_once", "rsplit_once"):
            return rest(c[2][0], base, st)
    a = application(t)
    if a is not None:
        return rest(a[2][-1], base, st)
    if t[0] == "fld" and t[2] == "input":
        e = t
        while e[0] in ("fld", "as"):
            e = e[1]
        if e[0] == "call" and e[1].startswith("@"):
            # the position in a parser's error (P07)
            return rest(e[2][-1], base, st)
    return None


def application(t):
    """What a parser left over."""
    if t[0] == "fld" and t[2] == "0":
        u = unwrapped(t[1])
        if u is not None and u[0] == "call" and u[1].startswith("@"):
            return u
    return None


def charix(x, base):
    """x is an offset given by char_indices of base"""
    if x[0] == "ix" and last(x[1]) in ("chars", "char_indices"):
        return same(x[1][2][0], base)
    # a part of an element of the iterator, as `last`, `nth` ... return it
    path = []
    t = x
    while t[0] == "fld":
        path.append(t[2])
        t = t[1]
        if t[0] == "as" and t[2] == "Some":
            path.append("some")
            t = t[1]
            break
    if "some" in path and t[0] == "call":
        it, mods = t, 0
        while it[0] == "call" and last(it) not in ("chars", "char_indices"):
            it = it[2][0]
        if it[0] == "iter":
            mods = it[2:]
            it = it[1]
        if it[0] == "call" and last(it) in ("chars", "char_indices"):
            ok = all(m[0] in KEEP for ms in mods or () for m in ([ms] if isinstance(ms, tuple) and ms and isinstance(ms[0], str) else ms))
            n = sum(1 for ms in mods or () for m in ([ms] if isinstance(ms, tuple) and ms and isinstance(ms[0], str) else ms) if m[0] == "enumerate")
            fields_ = [p for p in path if p != "some"][::-1]
            # Some.0 is the element; each enumerate wraps it once; the last one listed belongs to char_indices itself
            if ok and fields_ and fields_[0] == "0" and fields_[1:] == ["1"] * (n - 1) + ["0"]:
                return same(it[2][0], base)
            if ok and fields_ and fields_[0] == "0" and n > 1 and fields_[1:] == ["0"]:
                raise Bad("the number of a character is used as an offset")
    return None


def same(t, base):
    return True if t == base else None


def cut(crate, st, x, v):
    """x is an offset at which a character of v begins, or its end."""
    if x == ("int", 0) or x == ("lenof", v):
        return
    if x[0] == "lv":
        loops = {e[1]: e for e in st.ev if e[0] == "loop"}
        e = loops.get(x[1])
        if e is None:
            raise Undecided("offset of a loop")
        cut(crate, st, dict(e[3])[x], v)
        for a in e[2]:
            u = dict(a[3]).get(x, x)
            if u != x:
                cut(crate, st, u, v)
        return
    if x[0] == "lenof" and beginning(x[1], v):
        return
    if x[0] == "bin" and x[1] == "Sub" and x[2] == ("lenof", v) and x[3][0] == "lenof" and rest(x[3][1], v, st):
        return
    if charix(x, v):
        return
    u = unwrapped(x)
    if u is not None and last(u) in ("find", "rfind") and u[2][0] == v:
        return
    if x[0] == "bin" and x[1] == "Add":
        a, b = x[2], x[3]
        u = unwrapped(a)
        if u is not None and last(u) in ("find", "rfind") and u[2][0] == v:
            pat = u[2][1]
            n = len(pat[1].encode()) if pat[0] in ("str", "char") and isinstance(pat[1], str) else len(chr(pat[1]).encode()) if pat[0] in ("char", "int") else None
            if n is not None and b == ("int", n) or b == ("lenof", pat):
                return
        if b[0] == "int" and a[0] == "ix" and charix(a, v):
            el = ("elem", a[1])
            known = [c for c in st.conds if c[0] == "t" and c[2] is True and c[1][0] == "bin" and c[1][1] == "Eq" and el in c[1]]
            for c in known:
                o = c[1][3] if c[1][2] == el else c[1][2]
                w = ord(o[1]) if o[0] in ("char", "str") and isinstance(o[1], str) else o[1] if o[0] in ("char", "int") else None
                if w is not None:
                    if len(chr(w).encode()) == b[1]:
                        return
                    raise Bad("the offset behind %r is taken to be %d further" % (chr(w), b[1]))
            if not known and not [c for c in st.conds if el in list(walkt(c))]:
                raise Bad("the offset behind a character is taken to be %d further, whatever its length" % b[1])
    ascii_ = any(c[0] == "t" and last(c[1]) == "is_ascii" and c[1][2][0] == v and c[2] is True for c in st.conds)
    if sized(x, v) and not ascii_ and all(harmless(c, v) for c in st.conds) and (not read(v) or name(v)):
        for n in range(1, 200):
            env = {("lenof", v): n, ("empty", v): False}
            if any(evc(c, env) is False for c in st.conds):
                continue
            k = ev(x, env)
            if k != 0 and k != n:
                raise Bad("slices %s at %s, where it may end before or a character may be cut" % (pp(v)[:80], "%d" % x[1] if x[0] == "int" else pp(x)[-60:]))
    if x[0] == "lenof":
        p = x[1]
        while True:
            u = unwrapped(p)
            if u is not None and last(u) in TRIMR:
                p = u
            elif last(p) in TRIMR:
                p = p[2][0]
            else:
                break
        u = unwrapped(p)
        if p != v and (last(p) in TRIML or u is not None and last(u) in TRIML) and rest(p, v, st):
            raise Bad("the length of %s is used as an offset in what it is the end of" % pp(x[1])[:100])
    if x[0] == "lenof" and not mentions(x[1], v):
        raise Undecided("length of another text: %s in %s" % (pp(x[1])[:60], pp(v)[:60]))
    raise Undecided("offset %s in %s" % (pp(x)[:100], pp(v)[:60]))


def walkt(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from walkt(x)


def read(t):
    """A text read by a parser, whose form is not known here."""
    return any(x and x[0] == "call" and isinstance(x[1], str) and x[1].startswith("@") for x in walkt(t)) and not rest_of_param(t)


def rest_of_param(t):
    while True:
        a = application(t)
        u = unwrapped(t)
        if t[0] == "param":
            return True
        if a is not None:
            t = a[2][-1]
        elif u is not None and last(u) in TRIML:
            t = u[2][0]
        elif last(t) in TRIML:
            t = t[2][0]
        elif t[0] == "range" and t[3] == ("lenof", t[1]):
            t = t[1]
        elif t[0] == "fld" and t[2] == "1" and last(t[1]) == "split_at":
            t = t[1][2][0]
        else:
            return False


def name(t):
    u = t[1] if t[0] == "fld" and t[2] == "1" else None
    u = unwrapped(u) if u is not None else unwrapped(t[1]) if t[0] == "fld" else None
    return u is not None and u[0] == "call" and u[1] == "@nt" and u[2][0] == ("str", "identifier")


def harmless(c, v):
    """Says nothing about where the characters of v begin."""
    c = without(c, (("lenof", v), ("empty", v)))
    if not mentions(c, v):
        return True
    if c[0] == "t" and last(c[1]) == "is_ascii" and c[2] is False:
        return True
    return c[0] in ("is", "not") and last(c[1]) in ("nth", "get", "last", "next", "find", "position")


def sized(t, v):
    """Computed from the length of v alone."""
    if t == ("lenof", v) or t[0] == "int":
        return True
    return t[0] == "bin" and all(sized(x, v) for x in t[2:4])


def without(t, parts):
    if t in parts:
        return ("size",)
    return tuple(without(x, parts) for x in t) if isinstance(t, tuple) else t


def mentions(t, v):
    return any(x == v for x in walkt(t))


# ------------------------------------------------------------------ arithmetic
def overflow(crate, st, op, a, b):
    (x, tx), (y, ty) = a, b
    ty = tx or ty
    if x is None or y is None:
        raise Undecided("operands of %s" % op)
    wide = ty in ("usize", "isize", "u64", "i64", "u128", "i128")
    signed = ty[0] == "i"
    if op == "Add":
        if wide or ty in ("u32", "i32") and (y[0] == "int" and y[1] <= 16 or x[0] == "int" and x[1] <= 16):
            # counts characters or texts that are in memory
            return
        if y[0] != "int" or ty not in ("u8", "i8", "u16", "i16"):
            raise Undecided("%s + %s" % (pp(x)[:60], pp(y)[:60]))
        top = {"u8": 255, "i8": 127, "u16": 65535, "i16": 32767}[ty]
        t, n = p03.lin(x)
        lim = p03.bounded(st.conds, t)
        if lim is None and x[0] == "int":
            lim, n = x[1] + 1, 0
        if lim is None:
            if [c for c in st.conds if t in list(walkt(c)) and c[0] == "t"]:
                raise Undecided("%s + %d under %s" % (pp(x)[:60], y[1], [pp(c)[:60] for c in st.conds][-3:]))
            raise Bad("%s + %d overflows %s, nothing bounds it" % (pp(x)[:60], y[1], ty))
        # below lim, so at most lim - 1
        if lim - 1 + n + y[1] > top:
            raise Bad("%s + %d overflows %s when it is %d" % (pp(x)[:60], y[1], ty, lim - 1 + n))
        return
    if op == "Sub":
        if x[0] == "lenof" and y[0] == "lenof":
            if rest(y[1], x[1], st) or beginning(y[1], x[1]):
                return
            if rest(x[1], y[1], st) or beginning(x[1], y[1]):
                raise Bad("the length of a part less that of the whole")
            raise Undecided("difference of lengths")
        if y[0] != "int":
            raise Undecided("%s - %s" % (pp(x)[:60], pp(y)[:60]))
        if signed and ty not in ("i8", "i16"):
            return
        t, n = p03.lin(x)
        if t[0] == "int":
            n, t = n + t[1], None
        if n >= y[1] or (t is None and n >= y[1]):
            return
        # with the smallest values
        for k in range(0, y[1] - n):
            env = {t: k, x: k + n}
            if t is not None and t[0] == "lenof":
                env[("empty", t[1])] = k == 0
            verdict = [evc(c, env) for c in st.conds]
            if False not in verdict:
                if any(v is None and t in list(walkt(c)) for v, c in zip(verdict, st.conds)):
                    raise Undecided("%s - %d" % (pp(x)[:60], y[1]))
                raise Bad("%s - %d falls below zero when it is %d" % (pp(x)[:60], y[1], k + n))
        return
    raise Undecided("%s of %s and %s" % (op, pp(x)[:60], pp(y)[:60]))


def evc(c, env):
    try:
        return evcond(c, env)
    except NoVal:
        return None


# ------------------------------------------------------------------ values that must be there
def there(E, st, x, kind):
    want = "Err" if kind.endswith("_err") else None
    v = next((a for a in (want,) if a), None)
    names = ("Some", "Ok") if v is None else (v,)
    other = ("None", "Err") if v is None else ("Ok",)
    if is_agg(x):
        if x[2] in names:
            return
        if x[2] in other:
            raise Bad("unwraps %s" % x[2])
    for n in other:
        try:
            s = E.assume_is(st, x, n)
        except Exception:
            raise Undecided("unwraps %s" % pp(x)[:100])
        if s is None:
            return
        break
    f = last(x)
    if f in ("pop", "first", "last", "next", "last_mut", "first_mut", "next_back", "pop_front", "pop_back", "max", "min", "reduce", "split_first", "split_last"):
        c = x[2][0]
        while c[0] in ("iter", "call") and (c[0] == "iter" or last(c) in ("chars", "char_indices", "bytes", "iter", "into_iter", "by_ref", "mut")) and len(c) > 1:
            c = c[1] if c[0] == "iter" else c[2][0]
        if c[0] == "mut":
            c = c[1]
        if last(c) in ("split", "lines", "rsplit", "splitn") and last(c) != "lines":
            return
        root = c
        while root[0] == "fld" or root[0] == "as":
            if root[0] == "fld" and root[1][0] == "as" and root[1][2] == "Ok" and root[1][1][0] == "call" and root[1][1][1] == "@sep":
                break
            root = root[1]
        env = {("lenof", c): 0, ("empty", c): True}
        seps = [t for t in walkt(c) if t and t[0] == "call" and t[1] == "@sep"]
        verdict = [evc(k, env) for k in st.conds]
        if False in verdict:
            return
        if seps or any(c in list(walkt(k)) for k in st.conds):
            raise Undecided("unwraps %s" % pp(x)[:100])
        if read(c):
            raise Undecided("unwraps %s of %s" % (f, pp(c)[:100]))
        raise Bad("unwraps %s of what may be empty: %s" % (f, pp(c)[:100]))
    base = x[2][0] if x[0] == "call" and x[2] else None
    if f in ("parse", "from_str", "from_str_radix", "from_u32", "nth", "find", "rfind", "strip_prefix", "strip_suffix", "split_once", "get", "try_from", "try_into", "checked_add", "checked_sub", "position"):
        about = [c for c in st.conds if x in list(walkt(c)) or base is not None and base[0] != "int" and base in list(walkt(c))]
        if base is None or read(base) and f != "checked_add":
            raise Undecided("unwraps %s" % pp(x)[:100])
        if not about or f in ("parse", "from_str_radix", "from_u32") and not any(x in list(walkt(c)) for c in about):
            raise Bad("unwraps %s, which nothing shows to succeed" % pp(x)[:100])
    if x[0] == "call" and x[1].startswith("@") and not any(x in list(walkt(c)) for c in st.conds):
        raise Bad("unwraps the result of a parser: %s" % pp(x)[:100])
    raise Undecided("unwraps %s" % pp(x)[:100])


# ------------------------------------------------------------------ calls that do not return
def unreachable(st):
    unknown = []
    for c in st.conds:
        # nothing is left behind the end
        if c[0] == "t" and c[1][0] == "empty" and c[2] is False:
            a = application(c[1][1])
            if a is not None and a[1] == "@leaf" and "eof" in str(a[2][0]):
                return
        if evc(c, {}) is False:
            return
        if c[0] == "t":
            unknown += [c]
    results = [c for c in st.conds if c[0] in ("is", "not") and c[1][0] == "call" and c[1][1].startswith("@")]
    odd = [c for c in unknown if any(t and t[0] == "call" and t[1].startswith("@") for t in walkt(c)) and c[1][0] != "empty"]
    if odd:
        raise Undecided("the panic may be reached under %s" % pp(odd[-1])[:120])
    raise Bad("the panic is reached: %s" % "; ".join(pp(c)[:80] for c in (st.conds[-2:] or [("str", "always")])))
