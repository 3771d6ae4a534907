"""On every path on which TemplateArgs::new succeeds the template attribute must occur exactly once, and every argument of it
must be a name with a string literal; of each of the known names it must set the option of that name and no other to the
value of that literal, an unknown name must not be passed over, and path and source must only be accepted while neither is
set. The names of the print modes must give the modes. TemplateInput::new must succeed only with a path or a source, with
source only if there is an extension, and take block, print mode, extension, path and source from these options."""
from e04 import input_paths
from conflib import *

NAMES = {"path": "source", "source": "source", "block": "block", "print": "print", "escape": "escaping", "ext": "ext", "syntax": "syntax", "config": "config", "whitespace": "whitespace"}
FIELDS = sorted(set(NAMES.values()))
PRINT = {"all": "All", "ast": "Ast", "code": "Code", "none": "None"}


def run(C):
    R = C.R
    R.floor = 40
    R.section("attribute", attribute, C)
    R.section("print", print_, C)
    R.section("input", input_, C)


def attribute(C):
    R = C.R
    b = C.body("askama_derive", "input::TemplateArgs::new")
    where = b.where()
    E = C.engine("askama_derive", max_depth=4)
    ATTRS = ("fld", ("param", "p0"), "attrs")
    seen, once = {}, 0
    for st, rv in C.run(E, b):
        rv = E.norm(st, rv)
        if not is_agg(rv, "Ok"):
            continue
        f = fields(fields(rv)["0"])
        loops = [e for e in st.ev if e[0] == "loop"]
        outer = [e for e in loops if loop_src(e) == ATTRS]
        lvs = {x[1] for x in f.values() if x[0] == "lv"}
        inner = [e for e in loops if e[1] in lvs]
        if len(outer) != 1 or len(inner) != 1:
            raise Undecided("loops over the attributes and arguments: %d, %d" % (len(outer), len(inner)))
        outer, inner = outer[0], inner[0]
        for src in (ATTRS, loop_src(inner)):
            R.check(not any(c[0] == "iter" and c[1] == src and len(c) > 3 for c in st.conds), "all", "all of them are looked at: %s" % pp(src)[:60], where)
        lst = loop_src(inner)
        # the attribute
        if not (lst[0] == "fld" and lst[1][0] == "as" and lst[1][2] == "Some" and lst[1][1][0] == "lv"):
            raise Undecided("list of arguments %s" % pp(lst)[:80])
        lv = lst[1][1]
        R.check((lv, NONE_) in outer[3] or any(l == lv and is_agg(v, "None") for l, v in outer[3]), "attribute:none", "without the attribute there are no arguments", where)
        el = ("elem", ATTRS)
        for a in outer[2]:
            new = dict(a[3]).get(lv, lv)
            tests = [c for c in a[0] if c[0] == "t" and mentions(c, el) and mentions(c, ("str", "template"))]
            if len(tests) != 1:
                raise Undecided("what attribute it is: %s" % [pp(c)[-60:] for c in a[0]])
            if tests[0][2] is False:
                R.check(new == lv, "attribute:other", "another attribute does not count", where)
                continue
            once += 1
            R.check(("is", lv, "None") in a[0], "attribute:duplicate", "a second template attribute is an error", where)
            got = fields(new)["0"] if is_agg(new, "Some") else None
            good = got is not None and (any(c[0] == "is" and c[2] == "Ok" and (got == okof(c[1]) or got == c[1]) and mentions(c[1], el) for c in a[0]))
            R.check(good, "attribute:arguments", "the arguments are those of the attribute: %s" % pp(new)[:80], where)
        # its arguments
        it = ("elem", lst)
        cur = {x[2][1][1] if isinstance(x[2], tuple) else x[2]: x for x in f.values() if x[0] == "lv"}
        for n in FIELDS:
            x = f.get(n)
            R.check(x is not None and x[0] == "lv" and x[1] == inner[1], "result:" + n, "the option %s is the one read: %s" % (n, pp(x)[:60]), where)
        init = dict(inner[3])
        for n in FIELDS:
            R.check(n == "print" or is_agg(init.get(f[n]), "None"), "unset:" + n, "the option %s is unset at first: %s" % (n, pp(init.get(f[n]))[:60]), where)
            R.check(n != "print" or is_agg(init.get(f[n]), "None"), "unset:" + n, "nothing is printed without the option: %s" % pp(init.get(f[n]))[:60], where)
        for a in inner[2]:
            a = (tuple(named(c) for c in a[0]),) + a[1:]
            ident = {x for c in a[0] if c[0] == "t" and mentions(c, it) for x in strs_compared(c)}
            if len(ident) != 1:
                if not ident:
                    R.bad("unknown", "an argument is passed over: %s" % [pp(c)[-60:] for c in a[0]], where)
                    continue
                raise Undecided("name of an argument: %s" % [pp(x)[:60] for x in ident])
            ident = ident.pop()
            for k in key_of(a[0], ident, NAMES):
                if k is None:
                    R.bad("unknown", "an unknown argument is accepted: %s" % [pp(c)[-60:] for c in a[0]], where)
                    continue
                R.check(("is", it, "NameValue") in a[0], "kind:" + k, "%s must be given a value" % k, where)
                lits = [c[1] for c in a[0] if c[0] == "is" and c[2] == "Str" and mentions(c[1], it)]
                if not R.check(len(lits) == 1, "literal:" + k, "%s must be given a string literal: %s" % (k, [pp(c)[-60:] for c in a[0] if c[0] in ("is", "not")]), where):
                    continue
                want = ("call", "value", (("fld", ("as", lits[0], "Str"), "0"),))
                for n in FIELDS:
                    new = dict(a[3]).get(f[n], f[n])
                    if n != NAMES[k]:
                        R.check(new == f[n], "other:%s:%s" % (k, n), "%s does not change the option %s: %s" % (k, n, pp(new)[:60]), where)
                        continue
                    if n == "print":
                        good = new[0] == "fld" and new[1][0] == "as" and new[1][2] == "Ok" and new[1][1][0] == "call" and new[1][1][1].split("::")[-1] in ("parse", "from_str") and [value_of(x) for x in new[1][1][2]] == [lits[0]]
                        good = good and ("is", new[1][1], "Ok") in a[0]
                    elif n == "source":
                        v = fields(new)["0"] if is_agg(new, "Some") else ("?",)
                        good = is_agg(v, "Path" if k == "path" else "Source") and value_of(fields(v)["0"]) == lits[0]
                        R.check(("is", f[n], "None") in a[0], "both:" + k, "%s is only accepted without another path or source" % k, where)
                    else:
                        good = is_agg(new, "Some") and value_of(fields(new)["0"]) == lits[0]
                    R.check(good, "value:" + k, "%s sets the option to its value: %s" % (k, pp(new)[:80]), where)
                    seen[k] = seen.get(k, 0) + 1
    R.check(once > 0, "attribute", "the template attribute is read", where)
    for k in NAMES:
        R.check(k in seen, "name:" + k, "the argument %s is accepted" % k, where)


NONE_ = ("agg", "std::option::Option", "None", ())


def named(c):
    """A test of the name of a path as a comparison."""
    if c[0] == "t" and c[1][0] == "call" and c[1][1].split("::")[-1] == "is_ident" and len(c[1][2]) == 2:
        p, n = c[1][2]
        return ("t", ("eq", someof(("call", "syn::Path::get_ident", (p,))), n), c[2])
    return c


def value_of(t):
    """The literal a string is the value of."""
    while t[0] == "call" and len(t[2]) == 1 and t[1].split("::")[-1] in ("as_str", "to_string", "clone", "into", "from"):
        t = t[2][0]
    if t[0] == "call" and t[1].split("::")[-1] == "value" and len(t[2]) == 1:
        x = t[2][0]
        if x[0] == "fld" and x[1][0] == "as" and x[1][2] == "Str":
            return x[1][1]
    return None


def strs_compared(c):
    """What is compared with a string in a condition."""
    t = c[1]
    if t[0] in ("eq", "bin", "call"):
        xs = [x for x in t[1:] if isinstance(x, tuple)]
        if t[0] == "call":
            xs = list(t[2])
        if len(xs) == 2 and any(x[0] == "str" for x in xs):
            return [x for x in xs if x[0] != "str"]
    return []


def print_(C):
    R = C.R
    b = C.body("askama_derive", "<input::Print as std::str::FromStr>::from_str")
    E = C.engine("askama_derive", max_depth=2)
    seen = set()
    for st, rv in C.run(E, b):
        for k in key_of(st.conds, ("param", "p0"), PRINT):
            seen.add(k)
            if k is None:
                R.check(is_agg(rv, "Err"), "print:unknown", "an unknown print mode is an error: %s" % pp(rv)[:60], b.where())
            else:
                R.check(is_agg(rv, "Ok") and is_agg(fields(rv)["0"], PRINT[k]), "print:" + k, "print = %r: %s" % (k, pp(rv)[:60]), b.where())
    for k in list(PRINT) + [None]:
        R.check(k in seen, "print:%s" % k, "print mode %s" % k, b.where())


def input_(C):
    R = C.R
    b, ps = input_paths(C)
    where = b.where()
    A = ("param", "p2")
    SRC, EXT = ("fld", A, "source"), ("fld", A, "ext")
    seen = set()
    for conds, evs, rv, st in ps:
        if not is_agg(rv, "Ok"):
            continue
        f = fields(fields(rv)["0"])
        R.check(("is", SRC, "Some") in conds, "input:source", "there must be a path or a source", where)
        kind = [c[2] for c in conds if c[0] == "is" and c[1] == someof(SRC)]
        if len(kind) != 1:
            raise Undecided("kind of source")
        kind = kind[0]
        seen.add(kind)
        p = f["path"]
        while p[0] == "call" and p[1].split("::")[-1] in ("from", "into", "new") and len(p[2]) == 1:
            p = p[2][0]
        if kind == "Path":
            path = ("fld", ("as", someof(SRC), "Path"), "0")
            R.check(p[0] == "fld" and p[1][0] == "as" and p[1][2] == "Ok" and p[1][1][:2] == ("call", "find") and p[1][1][2][1] == path and is_agg(p[1][1][2][2], "None"), "input:path", "the template is the one found under the path: %s" % pp(p)[:80], where)
        else:
            R.check(("is", EXT, "Some") in conds, "input:ext", "source needs an extension", where)
            R.check(p[0] == "code" and len(p[1]) >= 2 and p[1][-1] == ("h", someof(EXT), "") and p[1][-2][0] == "s" and p[1][-2][1].endswith("."), "input:ext-path", "inline source has the extension given: %s" % pp(p)[:80], where)
        R.check(f["source"] == someof(SRC), "input:source", "the source is the one given: %s" % pp(f["source"])[:60], where)
        for n in ("block", "print", "ext"):
            want = ("fld", A, n)
            x = f[n]
            good = x == want or is_agg(x, "Some") and fields(x)["0"] == someof(want) or is_agg(x, "None") and ("is", want, "None") in conds
            R.check(good, "input:" + n, "the option %s is passed on: %s" % (n, pp(x)[:60]), where)
        R.check(f["ast"] == ("param", "p0"), "input:ast", "of the type at hand: %s" % pp(f["ast"])[:60], where)
    for k in ("Path", "Source"):
        R.check(k in seen, "input:" + k, "templates with %s" % k, where)
