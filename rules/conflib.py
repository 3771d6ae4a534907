"""Helpers for the rules about configuration and attributes."""
from genlib import *

CONF = "config::"
INSERTS = ("std::collections::BTreeMap::insert", "std::collections::HashMap::insert")
TOML, CHECK, READ = "config::RawConfig::from_toml_str", "std::convert::TryInto::try_into", "config::read_config_file"
ROOT = ("fld", ("as", ("call", "std::env::var", (("str", "CARGO_MANIFEST_DIR"),)), "Ok"), "0")


def pure(name):
    def h(E, fr, st, a, line):
        return [(st, ("call", name, tuple(E.norm(st, x) for x in a)))]
    return h


def note(name):
    def h(E, fr, st, a, line):
        st.ev += (("op", name, loc(E.derefloc(st, a[0]))) + tuple(E.norm(st, x) for x in a[1:]),)
        return NotImplemented
    return h


def okof(t):
    return ("fld", ("as", t, "Ok"), "0")


def someof(t):
    return ("fld", ("as", t, "Some"), "0")


def is_root(t):
    """The directory of the crate."""
    if t == ROOT:
        return True
    return t[0] == "call" and t[1].split("::")[-1] in ("from", "new", "into") and len(t[2]) == 1 and is_root(t[2][0])


def join(t):
    """(directory, path) of a joined path."""
    if t[0] == "call" and t[1].split("::")[-1] == "join" and len(t[2]) == 2:
        return t[2]
    return None


def const_of(C, t, crate="askama_derive"):
    """Value of a constant or static: nested lists and strings."""
    if t[0] in ("static", "const"):
        c = C.P.crates[crate].consts.get(t[1])
        if c is None:
            raise Missing("constant " + t[1])
        return plain(c["val"])
    return tplain(t)


def plain(v):
    if isinstance(v, dict):
        for k in ("str", "int", "bool"):
            if k in v:
                return v[k]
        for k in ("array", "tuple"):
            if k in v:
                return [plain(x) for x in v[k]]
        if "ref" in v:
            return plain(v["ref"])
    raise Undecided("constant %s" % str(v)[:80])


def tplain(t):
    if t[0] in ("str", "int", "bool"):
        return t[1]
    if t[0] in ("arr", "vec"):
        return [tplain(x) for x in t[1]]
    if t[0] == "agg" and t[1] == "tuple":
        return [tplain(x) for _, x in t[3]]
    raise Undecided("constant %s" % pp(t)[:80])


def config_paths(C):
    """Paths of Config::new: (conds, events, result, state)."""
    if not hasattr(C, "_config"):
        b = C.body("askama_derive", CONF + "Config::new")
        if "config::RawConfig::from_toml_str" not in C.P.crates["askama_derive"].by:
            raise Missing("RawConfig::from_toml_str")
        V = {TOML: pure("toml"), CHECK: pure("check"), "<config::RawSyntax as std::convert::TryInto>::try_into": pure("check"), "<config::RawSyntax as std::convert::TryFrom>::try_from": pure("check"), "std::convert::TryFrom::try_from": pure("check")}
        for n in INSERTS:
            V[n] = note("insert")
        C._config = b, [(st.conds, st.ev, rv, st) for st, rv in C.run(C.engine("askama_derive", max_depth=3, vocab=V), b)]
    return C._config


def args_of(C, fn):
    """Bodies of generated field visitors: {type name: body}"""
    out = {}
    for b in C.P.crates["askama_derive"].bodies:
        if b.path.endswith("::" + fn) and "for config::" in b.path:
            n = b.path.split("for config::")[1].split("<")[0].split(">")[0]
            out[n] = b
    return out


def key_of(conds, p, keys):
    """Which keys satisfy the conditions on a string parameter; None stands for any other string."""
    out = []
    others = {x[1] for c in conds if c[0] == "t" and mentions(c, p) for x in walk(c) if isinstance(x, tuple) and x[:1] == ("str",)} - set(keys)
    for k in list(keys) + sorted(others) + ["\x00other"]:
        feas = True
        for c in conds:
            if c[0] == "t" and mentions(c, p):
                r = evcond(c, {p: k})
                if r is None:
                    raise Undecided("condition on a name: %s" % pp(c)[:80])
                feas = feas and r
        k = k if k in keys else None
        if feas and k not in out:
            out.append(k)
    return out


def accept(conds, evs, env):
    """Is a path feasible under env, loops over known lists included?"""
    for c in conds:
        if c[0] == "iter":
            continue
        r = evcond(c, env)
        if r is None:
            raise Undecided("condition: %s" % pp(c)[-100:])
        if not r:
            return False
    for e in evs:
        if e[0] != "loop":
            continue
        src = loop_src(e)
        mods = [c for a in e[2] for c in a[0] if c[0] == "iter" and c[1] == src and len(c) > 3]
        if mods:
            raise Undecided("loop over a part of a list")
        try:
            items = ev(src, env)
        except NoVal as x:
            raise Undecided("list of a loop: %s" % str(x)[:80])
        for it in items:
            e2 = dict(env)
            e2[("elem", src)] = it
            if not any(accept(a[0], a[1], e2) for a in e[2]):
                return False
    return True
