"""Path-partitioned dataflow over MIR.

For one function the engine computes, by abstract interpretation of its control-flow graph, the finite set of
abstract paths: each path is a conjunction of branch atoms over symbolic access paths plus the ordered list of
events (vocabulary calls) on it. Local helpers are inlined, loops are summarised: loop-carried state is havocked
to a fixpoint and the body is analysed once as "one arbitrary iteration", giving a ("loop", id, alternatives) event.
No solver is involved: a path is dropped only when two of its atoms contradict each other syntactically.
"""
import sys
from mir import strip_generics
from terms import *

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "conds", "ev")

    def __init__(self):
        self.mem, self.facts, self.conds, self.ev = {}, {}, (), ()

    def copy(self):
        s = State()
        s.mem, s.facts, s.conds, s.ev = dict(self.mem), dict(self.facts), self.conds, self.ev
        return s


class Frame:
    __slots__ = ("body", "fid", "depth", "chain")

    def __init__(self, body, fid, depth, chain):
        self.body, self.fid, self.depth, self.chain = body, fid, depth, chain


IDENT = {  # value-preserving conversions
    "std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::string::ToString::to_string",
    "std::convert::Into::into", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow", "std::ops::Deref::deref",
    "std::ops::DerefMut::deref_mut", "std::string::String::as_str", "std::convert::AsMut::as_mut",
    "std::vec::Vec::as_slice", "std::borrow::Cow::into_owned", "std::boxed::Box::new", "std::rc::Rc::new",
    "std::option::Option::as_ref", "std::option::Option::as_mut", "std::option::Option::as_deref",
    "std::option::Option::as_deref_mut", "std::option::Option::copied", "std::option::Option::cloned",
    "std::result::Result::as_ref", "std::string::String::from_utf8_lossy", "std::str::as_bytes", "str::as_bytes",
    "std::string::String::as_bytes", "core::str::as_bytes", "std::hint::must_use", "std::string::String::into_boxed_str",
    "std::ops::Try::from_output_", "std::iter::IntoIterator::into_iter_", "std::vec::Vec::into_boxed_slice",
    "std::array::as_slice", "std::slice::to_vec", "core::slice::to_vec", "slice::to_vec", "std::slice::into_vec", "slice::into_vec",
    "std::str::to_owned", "core::str::to_owned", "std::mem::copy", "std::borrow::BorrowMut::borrow_mut",
    "std::iter::Iterator::by_ref", "std::iter::Iterator::copied", "std::iter::Iterator::cloned",
    "std::vec::Vec::as_mut_slice", "std::string::String::as_mut_str", "std::pin::Pin::new", "std::str::from_utf8_unchecked",
    "core::str::from_utf8_unchecked", "core::str::converts::from_utf8_unchecked", "std::convert::identity",
}
FROMLIKE = {"std::convert::From::from"}


class Engine:
    def __init__(self, prog, crate, vocab=None, inline=None, max_paths=6000, frozen=None, max_depth=8, pure=None):
        self.prog, self.crate = prog, crate
        self.vocab = vocab or {}
        self.inline = inline or (lambda b: True)
        self.max_paths = max_paths
        self.frozen = frozen if frozen is not None else set()
        self.max_depth = max_depth
        self.uid = 0
        self.fidc = 0
        self.npaths = 0
        self.inlined = set()
        self.opaque = {}
        self.unmodelled = set()
        self.panics = 0
        self.record_calls = None  # predicate(path)-> bool : record opaque calls as events
        self.cur_line = None
        self.cur_dty, self.cur_targs = None, ()
        self.pure = pure or (lambda p: False)

    # ------------------------------------------------------------------ memory
    def fresh(self):
        self.uid += 1
        return self.uid

    def root_default(self, root):
        if root[0] == "H":
            return root[1]
        return ("undef",)

    def rdroot(self, st, root):
        v = st.mem.get(root)
        return self.root_default(root) if v is None else v

    def proj(self, v, e):
        k = v[0]
        if e[0] == "f":
            if k == "agg":
                for n, x in v[3]:
                    if n == e[1]:
                        return x
                if e[1].isdigit() and int(e[1]) < len(v[3]):
                    return v[3][int(e[1])][1]
                return ("bad",)
            if k == "clo":
                for n, x in v[2]:
                    if n == e[1]:
                        return x
                return ("bad",)
            if k == "upd":
                for n, x in v[2]:
                    if n == e:
                        return x
                return self.proj(v[1], e)
            if k == "buf":
                if e[1] == "buf":
                    return ("code", v[1])
                return ("fld", ("bufobj",), e[1])
            if k == "mut" and e[1] in self.frozen:
                return self.proj(v[1], e)
            if k == "as" and v[1][0] == "agg":
                return self.proj(v[1], e)
            r = self.proj_hook(v, e)
            if r is not None:
                return r
            return ("fld", v, e[1])
        if e[0] == "d":
            if k == "agg":
                return v if v[2] == e[1] else ("bad",)
            if k == "upd":
                for n, x in v[2]:
                    if n == e:
                        return x
                return ("upd", self.proj(v[1], e), v[2]) if v[2] else self.proj(v[1], e)
            return ("as", v, e[1])
        if e[0] == "i":
            if k in ("arr", "vec") and e[1][0] == "int" and e[1][1] < len(v[1]) and ("star",) not in [x[:1] for x in v[1]]:
                return v[1][e[1][1]]
            return ("idx", v, e[1])
        if e[0] == "ci":
            if k in ("arr", "vec") and not e[2] and e[1] < len(v[1]):
                return v[1][e[1]]
            return ("idx", v, ("int", e[1] if not e[2] else -e[1]))
        if e[0] == "ss":
            return ("slice", v, e[1], e[2], e[3])
        raise Undecided("projection %r" % (e,))

    def proj_hook(self, v, e):
        return None

    def setpath(self, v, path, val):
        if not path:
            return val
        e = path[0]
        k = v[0]
        if k == "agg" and e[0] == "f":
            fs = list(v[3])
            for i, (n, x) in enumerate(fs):
                if n == e[1] or (e[1].isdigit() and int(e[1]) == i):
                    fs[i] = (n, self.setpath(x, path[1:], val))
                    return ("agg", v[1], v[2], tuple(fs))
            return ("agg", v[1], v[2], tuple(fs) + ((e[1], self.setpath(("undef",), path[1:], val)),))
        if k == "agg" and e[0] == "d":
            return self.setpath(v, path[1:], val)
        if k == "clo" and e[0] == "f":
            fs = list(v[2])
            for i, (n, x) in enumerate(fs):
                if n == e[1]:
                    fs[i] = (n, self.setpath(x, path[1:], val))
                    return ("clo", v[1], tuple(fs))
        if k == "undef" and e[0] == "f":
            return ("agg", "tuple", None, ((e[1], self.setpath(("undef",), path[1:], val)),))
        if k == "buf" and e[0] == "f" and e[1] == "buf" and len(path) == 1:
            if val[0] == "code":
                return ("buf", val[1])
        if k == "buf" and e[0] == "f" and e[1] != "buf":
            return v
        if k == "upd":
            cs = dict(v[2])
            cs[e] = self.setpath(self.proj(v, e), path[1:], val)
            return ("upd", v[1], tuple(sorted(cs.items(), key=repr)))
        return ("upd", v, ((e, self.setpath(self.proj(v, e), path[1:], val)),))

    def read(self, st, root, path):
        v = self.rdroot(st, root)
        for e in path:
            if v[0] == "ref":  # auto-deref safety
                v = self.read(st, v[2], v[3])
            v = self.proj(v, e)
        return v

    def write(self, st, root, path, val):
        if not path:
            st.mem[root] = val
        else:
            st.mem[root] = self.setpath(self.rdroot(st, root), path, val)

    def locof(self, v):
        """Location a pointer value points to."""
        if v[0] == "ref":
            return v[2], v[3]
        return ("H", v), ()

    def deref(self, st, v):
        n = 0
        while v[0] == "ref":
            v = self.read(st, v[2], v[3])
            n += 1
            if n > 30:
                raise Undecided("cyclic ref")
        r = ("H", v)
        if r in st.mem:
            return st.mem[r]
        return v

    def derefloc(self, st, v):
        """Follow reference chains down to the location of a non-reference value."""
        root, path = self.locof(v)
        for _ in range(30):
            x = self.read(st, root, path)
            if x[0] == "ref":
                root, path = x[2], x[3]
            else:
                return root, path
        raise Undecided("cyclic ref")

    def norm(self, st, v, depth=0):
        """Deep value of v with references resolved (for events and terms)."""
        if depth > 25:
            return v
        k = v[0]
        if k == "ref":
            x = self.deref(st, v)
            return self.norm(st, x, depth + 1)
        if k == "agg":
            return ("agg", v[1], v[2], tuple((n, self.norm(st, x, depth + 1)) for n, x in v[3]))
        if k == "clo":
            return ("clo", v[1], tuple((n, self.norm(st, x, depth + 1)) for n, x in v[2]))
        if k in ("arr", "vec"):
            return (k, tuple(self.norm(st, x, depth + 1) for x in v[1]))
        if k == "iter":
            return (k, self.norm(st, v[1], depth + 1)) + v[2:]
        if k not in ("str", "int", "bool", "char", "param", "fn") and ("H", v) in st.mem:
            x = st.mem[("H", v)]
            if x[0] not in ("upd", "mut"):
                return x
            return x
        return v

    def place_loc(self, fr, st, pl):
        root, path = ("L", fr.fid, pl[0]), ()
        for e in pl[1]:
            if e == "*":
                v = self.read(st, root, path)
                root, path = self.locof(v)
            elif e[0] == "f":
                path += (("f", e[2]),)
            elif e[0] == "i":
                path += (("i", self.read(st, ("L", fr.fid, e[1]), ())),)
            elif e[0] == "ci":
                path += (("ci", e[1], e[2]),)
            elif e[0] == "ss":
                path += (("ss", e[1], e[2], e[3]),)
            elif e[0] == "d":
                path += (("d", e[1]),)
        return root, path

    def place_val(self, fr, st, pl):
        root, path = self.place_loc(fr, st, pl)
        v = self.rdroot(st, root)
        for e in path:
            if v[0] == "ref" and e[0] in ("d", "f"):
                v = self.deref(st, v)
            v = self.proj(v, e)
        return v

    # --------------------------------------------------------------- constants
    def const(self, k):
        if "named" in k:
            v = self.const(k["val"])
            if v[0] == "opaque":
                return ("const", strip_generics(k["named"]))
            return v
        if "str" in k:
            return ("str", k["str"])
        if "int" in k:
            return ("int", k["int"])
        if "bool" in k:
            return ("bool", k["bool"])
        if "char" in k:
            return ("char", chr(k["char"]))
        if "fn" in k:
            res = k.get("res")
            return ("fn", strip_generics(k["fn"]), strip_generics(res) if res else None, tuple(k.get("args", ())))
        if "ctor" in k:
            return ("ctor", strip_generics(k["ctor"]))
        if "closure" in k:
            return ("clo", strip_generics(k["closure"]), ())
        if "bytes" in k:
            return ("bytes", tuple(k["bytes"]))
        if "array" in k:
            return ("arr", tuple(self.const(x) for x in k["array"]))
        if "tuple" in k:
            return agg("tuple", None, [(str(i), self.const(x)) for i, x in enumerate(k["tuple"])])
        if "adt" in k:
            return agg(strip_generics(k["adt"]), k["variant"], [(n, self.const(x)) for n, x in k["fields"]])
        if "ref" in k:
            return self.const(k["ref"])
        if "static" in k:
            return ("static", strip_generics(k["static"]))
        if "fnptr" in k:
            return ("fn", strip_generics(k["fnptr"]), None, ())
        if "zst" in k:
            return ("zst", k["zst"])
        return ("opaque", repr(sorted(k.items())))

    def operand(self, fr, st, o):
        if o[0] == "k":
            return self.const(o[1])
        return self.place_val(fr, st, o[1])

    # ------------------------------------------------------------------ rvalue
    def rvalue(self, fr, st, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            root, path = self.place_loc(fr, st, r[2])
            if not path and root[0] == "H":
                # &*p  is p itself
                if r[1] == "shared" and root not in st.mem:
                    return root[1]
                return ("ref", r[1], root, path)
            return ("ref", r[1], root, path)
        if k == "discr":
            v = self.deref(st, self.place_val(fr, st, r[1]))
            return self.discr(v, strip_generics(r[2]), tuple((a, b) for a, b in r[3]))
        if k == "agg":
            kind = r[1]
            ops = [self.operand(fr, st, o) for o in r[2]]
            if kind[0] == "tuple":
                return agg("tuple", None, [(str(i), x) for i, x in enumerate(ops)])
            if kind[0] == "adt":
                return agg(strip_generics(kind[1]), kind[2], list(zip(kind[3], ops)))
            if kind[0] == "closure":
                return ("clo", strip_generics(kind[1]), tuple(zip(kind[2], ops)))
            if kind[0] == "array":
                return ("arr", tuple(ops))
            return ("opaque", "agg")
        if k == "cast":
            v = self.operand(fr, st, r[2])
            hook = getattr(self, "on_cast", None)
            return (hook and hook(self, st, v, r[1], r[3])) or self.cast(v, r[1], r[3])
        if k == "bin":
            return self.binop(st, r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]))
        if k == "un":
            return self.unop(r[1], self.operand(fr, st, r[2]), st)
        if k == "repeat":
            return ("repeat", self.operand(fr, st, r[1]), r[2])
        return ("opaque", repr(r)[:60])

    def cast(self, v, kind, ty):
        if kind.startswith(("PointerCoercion", "PtrToPtr", "Transmute", "PointerExpose", "Subtype")):
            return v
        if v[0] == "int" or ty.startswith(("*const ", "*mut ")):
            return v
        if v[0] == "char" and ty in ("u32", "u64", "usize", "u8", "i32"):
            return ("int", ord(v[1]))
        if v[0] == "bool":
            return ("int", int(v[1]))
        if kind.startswith("IntToInt"):
            return ("int2int", v, ty) if v[0] not in ("lenof",) else v
        return ("cast", v, ty)

    def discr(self, v, adt, tbl):
        if v[0] == "agg":
            for n, vn in tbl:
                if vn == v[2]:
                    return ("int", n)
        return ("discr", v, adt, tbl)

    def binop(self, st, op, a, b):
        if op.endswith("WithOverflow"):
            return tup(self.binop(st, op[:-12], a, b), FALSE)
        if op.endswith("Unchecked"):
            op = op[:-9]
        a, b = self.norm(st, a), self.norm(st, b)
        if a[0] == b[0] == "char" and op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            a, b = ("int", ord(a[1])), ("int", ord(b[1]))
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "BitAnd": lambda: x & y,
                 "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << y, "Shr": lambda: x >> y,
                 "Div": lambda: x // y if y else None, "Rem": lambda: x % y if y else None}
            c = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}
            if op in c:
                return ("bool", c[op])
            if op in f:
                r = f[op]()
                if r is not None:
                    return ("int", r)
        if a[0] == "bool" and b[0] == "bool":
            x, y = a[1], b[1]
            c = {"Eq": x == y, "Ne": x != y, "BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}
            if op in c:
                return ("bool", c[op])
        if op in ("BitAnd", "BitOr"):
            for x, y in ((a, b), (b, a)):
                if x[0] == "bool":
                    if op == "BitAnd":
                        return y if x[1] else FALSE
                    return TRUE if x[1] else y
        # counts are never negative
        if op == "Gt":
            op, a, b = "Lt", b, a
        elif op == "Ge":
            return self.unop("Not", self.binop(st, "Lt", a, b), st)
        elif op == "Le":
            return self.unop("Not", self.binop(st, "Lt", b, a), st)
        if op == "Lt" and a == ("int", 0) and b[0] in ("ix", "lenof"):
            return self.unop("Not", self.mkeq(b, a), st)
        if op == "Lt" and b == ("int", 1) and a[0] in ("ix", "lenof"):
            return self.mkeq(a, ("int", 0))
        if op == "Eq":
            return self.mkeq(a, b)
        if op == "Ne":
            return ("not", self.mkeq(a, b))
        return ("bin", op, a, b)

    CONSTK = ("str", "int", "bool", "char", "bytes")

    def mkeq(self, a, b):
        if a == b and a[0] not in ("opaque",):
            return TRUE
        if a[0] in self.CONSTK and b[0] in self.CONSTK and a[0] == b[0]:
            return ("bool", a == b)
        if a[0] == "agg" and b[0] == "agg":
            if a[2] != b[2]:
                return FALSE
            if not a[3] and not b[3]:
                return ("bool", a[2] == b[2])
            if len(a[3]) == 1 and len(b[3]) == 1:
                return self.mkeq(a[3][0][1], b[3][0][1])
            if a[2] is None and len(a[3]) == len(b[3]):
                r = TRUE
                for (n, x), (m, y) in zip(a[3], b[3]):
                    q = self.mkeq(x, y)
                    if q == FALSE:
                        return FALSE
                    if q != TRUE:
                        r = q if r == TRUE else ("and", r, q)
                return r
        for x, y in ((a, b), (b, a)):
            if y[0] == "agg" and not y[3] and y[2] is not None:
                return ("isv", x, y[2])
            if y[0] == "agg" and y[2] == "Some" and x[0] != "agg":
                return ("eq", x, y)
        if a[0] in self.CONSTK and b[0] not in self.CONSTK:
            a, b = b, a
        elif not (b[0] in self.CONSTK) and repr(b) < repr(a):
            a, b = b, a
        if b[0] == "bool":
            return a if b[1] else ("not", a)
        if b == ("str", ""):
            return ("empty", a)
        if b == ("int", 0) and a[0] == "lenof":
            return ("empty", a[1])
        return ("eq", a, b)

    def unop(self, op, v, st):
        if op == "Not":
            if v[0] == "bool":
                return ("bool", not v[1])
            if v[0] == "not":
                return v[1]
            return ("not", v)
        if op == "Neg" and v[0] == "int":
            return ("int", -v[1])
        if op == "PtrMetadata":
            return self.lenof(st, self.norm(st, v))
        return ("un", op, v)

    def lenof(self, st, v):
        v = self.norm(st, v)
        if v[0] in ("vec", "arr") and not any(x[0] == "star" for x in v[1]):
            return ("int", len(v[1]))
        if v[0] == "str":
            return ("int", len(v[1].encode()))
        if v[0] == "bytes":
            return ("int", len(v[1]))
        return ("lenof", v)

    # ---------------------------------------------------------------- branching
    def is_variant(self, st, v, variant):
        """True/False/None from the path facts."""
        if v[0] == "agg":
            return v[2] == variant
        f = st.facts.get(v)
        if f is None:
            return None
        if f[0] == "is":
            return f[1] == variant
        if f[0] == "not" and variant in f[1]:
            return False
        return None

    def assume_is(self, st, v, variant):
        r = self.is_variant(st, v, variant)
        if r is False:
            return None
        if r is True:
            return st
        s = st.copy()
        s.facts[v] = ("is", variant)
        s.conds += (("is", v, variant),)
        return s

    TWO = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok", "Continue": "Break", "Break": "Continue",
           "Borrowed": "Owned", "Owned": "Borrowed", "Occupied": "Vacant", "Vacant": "Occupied"}

    def assume_not(self, st, v, variants, universe=None):
        if v[0] == "agg":
            return None if v[2] in variants else st
        f = st.facts.get(v)
        if f and f[0] == "is":
            return None if f[1] in variants else st
        ex = frozenset(variants) | (f[1] if f else frozenset())
        if universe is None and len(variants) == 1:
            o = self.TWO.get(list(variants)[0])
            if o:
                universe = [o, list(variants)[0]]
        if universe is not None:
            left = [u for u in universe if u not in ex]
            if not left:
                return None
            if len(left) == 1:
                s = st.copy()
                s.facts[v] = ("is", left[0])
                s.conds += (("is", v, left[0]),)
                return s
        s = st.copy()
        s.facts[v] = ("not", ex)
        s.conds += (("not", v, tuple(sorted(variants))),)
        return s

    def branch(self, st, c):
        """Fork on a boolean term: list of (state, bool)."""
        c0 = c
        pos = True
        while c[0] == "not":
            pos, c = not pos, c[1]
        if c[0] == "bool":
            return [(st, c[1] == pos)]
        if c[0] == "ref":
            return self.branch(st, self.deref(st, c0))
        if c[0] == "and":
            out = []
            for s, b in self.branch(st, c[1]):
                if not b:
                    out.append((s, not pos))
                else:
                    out += [(s2, b2 == pos) for s2, b2 in self.branch(s, c[2])]
            return out
        if c[0] == "or":
            out = []
            for s, b in self.branch(st, c[1]):
                if b:
                    out.append((s, pos))
                else:
                    out += [(s2, b2 == pos) for s2, b2 in self.branch(s, c[2])]
            return out
        if c[0] == "isv":
            out = []
            s = self.assume_is(st, c[1], c[2])
            if s is not None:
                out.append((s, pos))
            s = self.assume_not(st, c[1], (c[2],))
            if s is not None:
                out.append((s, not pos))
            return out
        if c in st.facts:
            return [(st, st.facts[c] == pos)]
        if c[0] == "eq" and c[2][0] in self.CONSTK:
            kv = st.facts.get(("val", c[1]))
            if kv is not None:
                return [(st, (kv == c[2]) == pos)]
        if c[0] == "empty":
            kv = st.facts.get(("val", c[1]))
            if kv is not None and kv[0] == "str":
                return [(st, (kv[1] == "") == pos)]
        out = []
        for b in (True, False):
            s = st.copy()
            s.facts[c] = b
            if b and c[0] == "eq" and c[2][0] in self.CONSTK:
                s.facts[("val", c[1])] = c[2]
            s.conds += (("t", c, b),)
            s = self.refine(s, c, b)
            if s is not None:
                out.append((s, b == pos))
        return out

    def refine(self, st, c, b):
        return st

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        if v[0] == "ref":
            v = self.deref(st, v)
        ty = t[4]
        targets, other = t[2], t[3]
        if v[0] == "bool":
            n = int(v[1])
            for x, bb in targets:
                if x == n:
                    return [(st, bb)]
            return [(st, other)]
        if v[0] == "int":
            n = v[1]
            for x, bb in targets:
                if x == n or (n < 0 and x == n + (1 << self.bits(ty))):
                    return [(st, bb)]
            return [(st, other)]
        if v[0] == "char":
            for x, bb in targets:
                if x == ord(v[1]):
                    return [(st, bb)]
            return [(st, other)]
        if v[0] == "discr":
            names = dict(v[3])
            base = v[1]
            out, listed = [], []
            for x, bb in targets:
                vn = names.get(x)
                if vn is None:
                    continue
                listed.append(vn)
                s = self.assume_is(st, base, vn)
                if s is not None:
                    out.append((s, bb))
            if self.otherwise_reachable(fr, other):
                s = self.assume_not(st, base, tuple(listed), [n for _, n in v[3]])
                if s is not None:
                    out.append((s, other))
            return out
        if ty == "bool":
            if v[0] in ("lv", "undef") and self.is_dropflag(fr, t[1]):
                for x, bb in targets:
                    if x == 0:
                        return [(st, bb)]
            out = []
            for s, b in self.branch(st, v):
                n = int(b)
                for x, bb in targets:
                    if x == n:
                        out.append((s, bb))
                        break
                else:
                    out.append((s, other))
            return out
        # integers / chars, symbolic
        kv = st.facts.get(("val", v))
        if kv is not None:
            n = ord(kv[1]) if kv[0] == "char" else kv[1]
            for x, bb in targets:
                if x == n:
                    return [(st, bb)]
            return [(st, other)]
        out = []
        for x, bb in targets:
            c = ("char", chr(x)) if ty == "char" else ("int", x)
            if st.facts.get(("eq", v, c)) is False:
                continue
            s = st.copy()
            s.facts[("val", v)] = c
            s.conds += (("t", ("eq", v, c), True),)
            s = self.refine(s, ("eq", v, c), True)
            if s is not None:
                out.append((s, bb))
        if self.otherwise_reachable(fr, other):
            s = st.copy()
            for x, bb in targets:
                c = ("char", chr(x)) if ty == "char" else ("int", x)
                s.facts[("eq", v, c)] = False
                s.conds += (("t", ("eq", v, c), False),)
                s = self.refine(s, ("eq", v, c), False)
                if s is None:
                    break
            if s is not None:
                out.append((s, other))
        return out

    def bits(self, ty):
        return {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32}.get(ty, 64)

    def otherwise_reachable(self, fr, bb):
        return fr.body.blocks[bb]["t"][0] != "unreachable" or fr.body.blocks[bb]["s"]

    def is_dropflag(self, fr, op):
        if op[0] == "k" or op[1][1]:
            return False
        l = op[1][0]
        if fr.body.locals[l][1] is not None:
            return False
        for b in fr.body.blocks:
            for s in b["s"]:
                if s[0][0] == l and not s[0][1]:
                    if not (s[1][0] == "use" and s[1][1][0] == "k"):
                        return False
            t = b["t"]
            if t[0] == "call" and t[3][0] == l:
                return False
        return True

    # ---------------------------------------------------------------- execution
    def run(self, body, args=None, st=None):
        """Explore a function from symbolic parameters: list of (state, return value)."""
        if args is None:
            args = []
            for i in range(body.argc):
                args.append(("param", "p%d" % i))
        if st is None:
            st = State()
        self.npaths = 0
        return self.exec_fn(body, args, st, 0, ())

    def exec_fn(self, body, args, st, depth, chain):
        self.fidc += 1
        fr = Frame(body, self.fidc, depth, chain + (body.npath,))
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[("L", fr.fid, i + 1)] = a
        outs = self.run_blocks(fr, 0, st, None, None, False)
        res = []
        for o in outs:
            if o[0] == "ret":
                s = o[1]
                rv = self.rdroot(s, ("L", fr.fid, 0))
                rv = self.detach(s, rv, fr.fid)
                res.append((s, rv))
        for s, rv in res:
            pass
        if depth == 0:
            self.npaths = len(res)
        return self.merge(res, fr)

    def detach(self, st, rv, fid):
        return rv

    any_limit = 60

    def merge(self, res, fr):
        if fr.depth == 0 or len(res) < 2:
            return res
        # drop this frame's locals unless something still points into it
        groups = {}
        out = []
        for s, rv in res:
            for r in [r for r in s.mem if r[0] == "L" and r[1] == fr.fid]:
                if not self.frame_escapes(rv, fr.fid) and not any(
                        self.frame_escapes(x, fr.fid) for q, x in s.mem.items() if not (q[0] == "L" and q[1] == fr.fid)):
                    for r2 in [r2 for r2 in s.mem if r2[0] == "L" and r2[1] == fr.fid]:
                        del s.mem[r2]
                break
            try:
                key = (rv, s.ev, tuple(sorted(s.mem.items(), key=lambda kv: repr(kv[0]))))
                groups.setdefault(key, []).append((s, rv))
            except TypeError:
                out.append((s, rv))
        for key, lst in groups.items():
            if len(lst) == 1:
                out.append(lst[0])
                continue
            s0 = lst[0][0].copy()
            s0.facts = {k: v for k, v in s0.facts.items() if all(o.facts.get(k) == v for o, _ in lst)}
            cs = [set(map(repr, o.conds)) for o, _ in lst]
            common = set.intersection(*cs)
            rests = [tuple(c for c in o.conds if repr(c) not in common) for o, _ in lst]
            s0.conds = tuple(c for c in s0.conds if repr(c) in common)
            if all(rests) and sum(map(len, rests)) <= self.any_limit:
                s0.conds += (("any", tuple(rests)),)
            out.append((s0, key[0]))
        return out

    def frame_escapes(self, v, fid):
        st = [v]
        while st:
            x = st.pop()
            if not isinstance(x, tuple):
                continue
            if x and x[0] == "L" and len(x) == 3 and x[1] == fid:
                return True
            st.extend(y for y in x if isinstance(y, tuple))
        return False

    def run_blocks(self, fr, bb, st, stop, region, entered):
        outs = []
        loops = fr.body.find_loops()
        work = [(bb, st, entered)]
        steps = 0
        while work:
            bb, st, ent = work.pop()
            steps += 1
            if steps > 60000:
                raise Undecided("too many steps in %s" % fr.body.npath)
            if len(outs) + len(work) > self.max_paths:
                raise Undecided("too many paths in %s" % fr.body.npath)
            if bb == stop and not ent:
                outs.append(("back", st))
                continue
            if region is not None and bb not in region:
                outs.append(("exit", bb, st))
                continue
            if bb in loops and not ent:
                for o in self.do_loop(fr, bb, st, loops[bb]):
                    if o[0] == "exit":
                        work.append((o[1], o[2], False))
                    else:
                        outs.append(o)
                continue
            blk = fr.body.blocks[bb]
            for s in blk["s"]:
                self.cur_line = s[2]
                val = self.rvalue(fr, st, s[1])
                if s[1][0] == "setdiscr":
                    continue
                root, path = self.place_loc(fr, st, s[0])
                # states are shared between worklist entries only before modification
                self.write(st, root, path, val)
            t = blk["t"]
            k = t[0]
            if k == "goto":
                work.append((t[1], st, False))
            elif k == "ret":
                outs.append(("ret", st))
            elif k == "switch":
                self.cur_line = t[5]
                alts = self.switch(fr, st, t)
                for s, b in reversed(alts):
                    work.append((b, s.copy() if len(alts) > 1 else s, False))
            elif k == "drop":
                work.append((t[2], st, False))
            elif k == "assert":
                self.on_assert(fr, st, t)
                work.append((t[1], st, False))
            elif k == "call":
                self.cur_line = t[5]
                f = self.operand(fr, st, t[1])
                args = [self.operand(fr, st, a) for a in t[2]]
                if t[4] is None:
                    self.panics += 1
                    self.on_diverge(fr, st, f, args, t[5])
                    continue
                res = self.call(fr, st, f, args, t[5], fr.body.locals[t[3][0]][0] if not t[3][1] else None)
                for s, v in reversed(res):
                    if v == ("skip-iteration",):
                        if stop is not None:
                            outs.append(("back", s))
                        continue
                    s = s.copy()
                    root, path = self.place_loc(fr, s, t[3])
                    self.write(s, root, path, v)
                    work.append((t[4], s, False))
            elif k == "unreachable":
                pass
            elif k == "other":
                pass
            else:
                raise Undecided("terminator %s" % k)
        return outs

    def on_diverge(self, fr, st, f, args, line):
        pass

    def on_assert(self, fr, st, t):
        pass

    def do_loop(self, fr, h, st, region):
        return self.loop_with(fr, ("loop", fr.fid, h), st, lambda s: self.run_blocks(fr, h, s, h, region, True))

    def loop_with(self, fr, lid, st, step):
        """Run a loop whose arbitrary iteration is given by a function from a state to ("back", s), ("exit", x, s), ("ret", s)."""
        hav = {}
        for it in range(8):
            st0 = st.copy()
            for root, how in hav.items():
                self.apply_havoc(st0, root, how, lid)
            st0.ev = ()
            base = st0.copy()
            outs = step(st0)
            new = {}
            for o in outs:
                if o[0] != "back":
                    continue
                s = o[1]
                for root, v in s.mem.items():
                    if root[0] == "L" and root[1] > fr.fid:
                        continue
                    v0 = base.mem.get(root)
                    if v0 is None:
                        if root[0] == "L":
                            continue
                        v0 = self.root_default(root)
                    if v == v0:
                        continue
                    one = {}
                    self.facts = s.conds
                    self.diff(root, v0, v, one, hav)
                    for r, how in one.items():
                        o2 = new.get(r, how)
                        if isinstance(how, tuple) and isinstance(o2, tuple):
                            new[r] = ("parts", how[1] | o2[1])
                        else:
                            new[r] = how if o2 == how else "all"
            grew = False
            for root, how in new.items():
                old = hav.get(root)
                if old is None:
                    hav[root] = how
                    grew = True
                elif old == "all" or old == how:
                    continue
                elif how == "all":
                    hav[root] = "all"
                    grew = True
                elif isinstance(how, tuple) and isinstance(old, tuple) and how[0] == "parts" and old[0] == "parts":
                    u = old[1] | how[1]
                    if u != old[1]:
                        hav[root] = ("parts", u)
                        grew = True
                else:
                    hav[root] = "all"
                    grew = True
            if not grew:
                break
        else:
            raise Undecided("loop fixpoint in %s" % fr.body.npath)
        backs = [o[1] for o in outs if o[0] == "back"]
        n0 = len(base.conds)
        alts = []
        inits = []
        for root, how in hav.items():
            for lvt, path in self.lvterms(root, how, lid, base):
                inits.append((lvt, self.norm(st, self.read(st, root, path))))
        for s in backs:
            bufd = []
            upd = []
            for root, how in hav.items():
                for lvt, path in self.lvterms(root, how, lid, base):
                    upd.append((lvt, self.norm(s, self.read(s, root, path))))
            for root, how in hav.items():
                if how in ("bufstar", "vecstar"):
                    v, v0 = s.mem.get(root), base.mem.get(root)
                    if v and v0 and v[0] == v0[0] and v[1][:len(v0[1])] == v0[1] and len(v[1]) > len(v0[1]):
                        bufd.append((root, v[1][len(v0[1]):]))
            alts.append((s.conds[n0:], s.ev, tuple(sorted(bufd, key=repr)), tuple(upd)))
        loopev = ("loop", lid, tuple(alts), tuple(inits))
        res = []
        for o in outs:
            if o[0] == "back":
                continue
            s = o[-1].copy()
            s.ev = st.ev + ((loopev,) if backs else ()) + s.ev
            res.append(("exit", o[1], s) if o[0] == "exit" else ("ret", s))
        return res

    def lvterms(self, root, how, lid, base):
        """(loop-variable term, path) pairs of a havocked root."""
        if how in ("bufstar", "vecstar"):
            return []
        if how == "all":
            v = base.mem.get(root)
            return [(v, ())] if v is not None and v[0] in ("lv", "mut") else []
        return [(("lv", lid, (root[2] if root[0] == "L" else root, p[0] if len(p) == 1 else p)), p) for p in sorted(how[1], key=repr)]

    def diff(self, root, v0, v1, out, hav):
        if v0[0] in ("buf", "vec", "code") and v1[0] == v0[0] and v1[1][:len(v0[1])] == v0[1]:
            out[root] = "bufstar" if v0[0] != "vec" else "vecstar"
            return
        # updates of components of the same base
        b0, c0 = (v0[1], dict(v0[2])) if v0[0] == "upd" else (v0, {})
        if v1[0] == "upd" and v1[1] == b0:
            parts = set()
            for e, x in v1[2]:
                y = c0.get(e)
                if y is None:
                    y = self.proj(b0, e)
                if x != y:
                    self.deep(y, x, (e,), parts)
            if parts:
                out[root] = ("parts", frozenset(parts))
            return
        if v0[0] == "agg" and v1[0] == "agg" and v0[1:3] == v1[1:3] and len(v0[3]) == len(v1[3]) and v0[3]:
            parts = set()
            self.deep(v0, v1, (), parts)
            if parts:
                out[root] = ("parts", frozenset(parts))
            return
        out[root] = "all"

    def deep(self, v0, v1, path, parts):
        """Paths of the leaves in which two values differ."""
        if v0[0] == "agg" and v1[0] == "agg" and v0[1:3] == v1[1:3] and len(v0[3]) == len(v1[3]) and v0[3]:
            for (n, a), (_, b) in zip(v0[3], v1[3]):
                if a != b:
                    self.deep(a, b, path + (("f", n),), parts)
        elif v1 in (TRUE, FALSE) and ("t", v0, v1 == TRUE) in self.facts:
            pass  # the value it is known to have
        else:
            parts.add(path)

    def apply_havoc(self, st, root, how, lid):
        v = self.rdroot(st, root)
        if how in ("bufstar", "vecstar"):
            if v[0] in ("buf", "vec", "code"):
                st.mem[root] = (v[0], v[1] + (("star", lid, root, ()),))
                return
            how = "all"
        if how == "all":
            if root[0] == "H" or v[0] in ("mut",):
                b = v
                while b[0] in ("mut", "upd"):
                    b = b[1]
                st.mem[root] = ("mut", b, ("lv", lid))
            else:
                st.mem[root] = ("lv", lid, root[2] if root[0] == "L" else root)
            self.drop_facts(st, None)
        else:
            for p in sorted(how[1], key=repr):
                x = v
                for e in p:
                    x = self.proj(x, e)
                if x[0] in ("buf", "vec", "code"):
                    nx = (x[0], x[1] + (("star", lid, root, p[:-1]),))
                else:
                    nx = ("lv", lid, (root[2] if root[0] == "L" else root, p[0] if len(p) == 1 else p))
                v = self.setpath(v, p, nx)
            st.mem[root] = v

    def drop_facts(self, st, term):
        if term is None:
            return
        st.facts = {k: v for k, v in st.facts.items() if not mentions(k, term)}

    # -------------------------------------------------------------------- calls
    def callee_names(self, f):
        """(generic path, resolved path)."""
        return f[1], f[2]

    def call(self, fr, st, f, args, line, dty=None):
        self.cur_dty = dty
        self.cur_targs = f[3] if f[0] == "fn" and len(f) > 3 else ()
        if f[0] == "ref":
            f = self.deref(st, f)
        if f[0] == "clo":
            return self.call_closure(fr, st, f, args)
        if f[0] == "ctor":
            return [(st, self.mkctor(f[1], args, dty))]
        if f[0] != "fn":
            return self.opaque_call(fr, st, "apply", [f] + list(args), line)
        gp, rp = self.callee_names(f)
        for p in (rp, gp):
            if p is None:
                continue
            h = self.vocab.get(p) or self.vocab.get(fr.body.crate + "::" + p)
            if h is not None:
                r = h(self, fr, st, args, line)
                if r is not NotImplemented:
                    return r
        m = self.model(fr, st, gp, rp, f, args, line, dty)
        if m is not None:
            return m
        body = None
        for p in (rp, gp):
            if p is not None:
                body = self.prog.body(fr.body.crate, p)
                if body is not None:
                    break
        if body is not None and body.kind in ("Fn", "AssocFn") and body.argc == len(args) and body.npath not in fr.chain \
                and fr.depth < self.max_depth and self.inline(body):
            self.inlined.add(body.npath)
            return self.exec_fn(body, args, st, fr.depth + 1, fr.chain)
        return self.opaque_call(fr, st, rp or gp, args, line)

    def mkctor(self, path, args, dty):
        segs = path.split("::")
        # enum variant constructor `Enum::Variant` or tuple struct
        if len(segs) >= 2 and segs[-2][:1].isupper():
            return agg("::".join(segs[:-1]), segs[-1], [(str(i), a) for i, a in enumerate(args)])
        if segs[-1] in ("Some", "Ok", "Err"):
            base = "std::option::Option" if segs[-1] == "Some" else "std::result::Result"
            return agg(base, segs[-1], [(str(i), a) for i, a in enumerate(args)])
        return agg(path, segs[-1], [(str(i), a) for i, a in enumerate(args)])

    def call_closure(self, fr, st, clo, args):
        body = self.prog.body(fr.body.crate, clo[1])
        if body is None:
            for c in self.prog.crates.values():
                if clo[1] in c.by:
                    body = c.by[clo[1]]
        if body is None or body.npath in fr.chain or fr.depth >= self.max_depth + 2:
            return self.opaque_call(fr, st, "apply", [clo] + list(args), None)
        # closure self argument: by reference or by value
        selfty = body.locals[1][0]
        s = st.copy()
        if selfty.startswith("&"):
            self.fidc += 1
            root = ("L", self.fidc, 0)
            s.mem[root] = clo
            a0 = ("ref", "mut", root, ())
        else:
            a0 = clo
        return self.exec_fn(body, [a0] + list(args), s, fr.depth + 1, fr.chain)

    def apply(self, fr, st, f, args):
        """Call a function value (closure, fn item, constructor)."""
        loc = None
        while f[0] == "ref":
            loc = (f[2], f[3])
            f = self.read(st, f[2], f[3])
        if f[0] == "clo":
            return self.call_closure(fr, st, f, args)
        if f[0] in ("fn", "ctor"):
            return self.call(fr, st, f, args, None)
        return self.opaque_call(fr, st, "apply", [f] + list(args), None)

    def mutlocs(self, st, v, out, depth=0):
        if depth > 6 or not isinstance(v, tuple):
            return
        if v[0] == "ref":
            if v[1] in ("mut", "raw"):
                out.append((v[2], v[3]))
            else:
                # shared reference to something holding &mut is still only shared
                pass
        elif v[0] == "agg":
            for n, x in v[3]:
                self.mutlocs(st, x, out, depth + 1)
        elif v[0] == "clo":
            for n, x in v[2]:
                self.mutlocs(st, x, out, depth + 1)
        elif v[0] in ("arr", "vec"):
            for x in v[1]:
                self.mutlocs(st, x, out, depth + 1)

    def opaque_call(self, fr, st, path, args, line):
        dty, targs = self.cur_dty, self.cur_targs
        locs = []
        for a in args:
            self.mutlocs(st, a, locs)
        na = tuple(self.norm(st, a) for a in args)
        self.opaque[path] = self.opaque.get(path, 0) + 1
        s = st.copy()
        if locs and not self.pure(path):
            u = self.fresh()
            term = ("call", path, na, u)
            for root, p in locs:
                old = self.read(s, root, p)
                b = old
                while b[0] == "mut":
                    b = b[1]
                if old[0] == "ref":
                    continue
                self.write(s, root, p, ("mut", b, u))
        else:
            term = ("call", path, na)
        if self.record_calls and self.record_calls(path):
            s.ev += (("call", path, na, line, dty, term, targs),)
        return [(s, term)]

    # ------------------------------------------------------------------- models
    def model(self, fr, st, gp, rp, f, args, line, dty):
        import models
        return models.model(self, fr, st, gp, rp, f, args, line, dty)
