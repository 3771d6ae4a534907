"""Over all paths of Config::new the whitespace mode of the result must be the one named by the attribute, each name of the
three giving its mode and any other an error, if there is an attribute, else the one in the file, else preserve; the
directories must be the configured ones in order, each below the crate, or, if none are configured, the templates directory
of the crate; the default syntax must be the configured one or the built-in one. The configuration must be read from the file
named, which must exist, or else from askama.toml if that exists, and an unreadable file must be an error. Every key of the
file must set the option of its name, and an unset whitespace key must mean preserve. The derive macro must take the
configuration of the file and the whitespace attribute of the template at hand, look templates up in the directories in
order and use the syntax named by the template, unknown ones being an error, or else the default one."""
from e04 import input_paths
from g10 import finder
from conflib import *

MODES = {"suppress": "Suppress", "minimize": "Minimize", "preserve": "Preserve"}
RAW = okof(("call", "toml", (("param", "p0"),)))
GENERAL = ("fld", RAW, "general")
GEN_ = someof(GENERAL)
KEYS = {
    "RawConfig": ("general", "syntax", "escaper"),
    "General": ("dirs", "default_syntax", "whitespace"),
    "RawSyntax": ("name", "block_start", "block_end", "expr_start", "expr_end", "comment_start", "comment_end"),
    "RawEscaper": ("path", "extensions"),
}


def run(C):
    R = C.R
    R.floor = 45
    R.section("whitespace", whitespace, C)
    R.section("modes", modes, C)
    R.section("dirs", dirs, C)
    R.section("default", default, C)
    R.section("file", file, C)
    R.section("keys", keys, C)
    R.section("wiring", wiring, C)
    R.section("syntax", syntax, C)
    R.section("finder", finder, C)


def configs(C):
    b, ps = config_paths(C)
    return b.where(), [(conds, evs, fields(fields(rv)["0"]) if is_agg(rv, "Ok") else None, st) for conds, evs, rv, st in ps]


def verdict(conds, t):
    """Variant a term is known to have."""
    return {c[2] for c in conds if c[0] == "is" and c[1] == t}


def whitespace(C):
    R = C.R
    where, ps = configs(C)
    ATTR = ("param", "p1")
    seen = set()
    for conds, evs, f, st in ps:
        v = verdict(conds, ATTR)
        if v == {"Some"}:
            for k in key_of(conds, someof(ATTR), MODES):
                if f is None:
                    if k is None:
                        seen.add("unknown")
                    continue
                if not R.check(k is not None, "attribute:unknown", "an unknown whitespace attribute is an error", where):
                    continue
                R.check(is_agg(f["whitespace"], MODES[k]), "attribute:" + k, "whitespace = %r: %s" % (k, pp(f["whitespace"])), where)
                seen.add(k)
            continue
        if f is None:
            continue
        if v != {"None"}:
            raise Undecided("whitespace attribute")
        g = verdict(conds, GENERAL)
        w = f["whitespace"]
        if g == {"Some"}:
            R.check(w == ("fld", GEN_, "whitespace"), "file", "without an attribute the mode of the file counts: %s" % pp(w)[:60], where)
            seen.add("file")
        else:
            R.check(is_agg(w, "Preserve"), "default", "with neither white space is preserved: %s" % pp(w)[:60], where)
            seen.add("default")
    for k in list(MODES) + ["unknown", "file", "default"]:
        R.check(k in seen, "whitespace:" + k, "whitespace mode: %s" % k, where)


def modes(C):
    R = C.R
    bs = [b for b in C.P.crates["askama_derive"].bodies if "From<config::WhitespaceHandling>" in b.path and b.path.endswith("::from") or "Into<" in b.path and "for config::WhitespaceHandling" in b.path and b.path.endswith("::into")]
    if len(bs) != 1:
        raise Missing("conversion of the whitespace mode")
    b = bs[0]
    for m in MODES.values():
        got = set()
        for st, rv in C.run(C.engine("askama_derive", max_depth=2), b):
            if all(c[2] == m if c[0] == "is" else m not in c[2] for c in st.conds if c[0] in ("is", "not") and c[1] == ("param", "p0")):
                got.add(rv[2] if is_agg(rv) else rv)
        if got == {("param", "p0")}:
            continue
        R.check(got == {m}, "mode:" + m, "%s is handled as %s" % (m, sorted(map(str, got))), b.where())


def dirs(C):
    R = C.R
    where, ps = configs(C)
    D = ("fld", GEN_, "dirs")
    seen = set()
    for conds, evs, f, st in ps:
        if f is None:
            continue
        d = f["dirs"]
        if verdict(conds, GENERAL) == {"Some"} and verdict(conds, D) == {"Some"}:
            seen.add("configured")
            L = someof(D)
            good = None
            if d[0] == "collect":
                R.check(len(d) == 3, "dirs:order", "the directories keep their order: %s" % pp(d)[-60:], where)
                good = d[1] == L and all(not [c for c in cs if c[0] != "iter"] and is_dir(x, L) for cs, x in d[2]) and len(d[2]) > 0
            elif d[0] == "vec" and len(d[1]) == 1 and d[1][0][0] == "star":
                lp = [e for e in evs if e[0] == "loop" and e[1] == d[1][0][1]]
                if len(lp) != 1:
                    raise Undecided("loop of the directories")
                lp = lp[0]
                R.check(not any(len(c) > 3 for a in lp[2] for c in a[0] if c[0] == "iter"), "dirs:order", "the directories keep their order", where)
                good = loop_src(lp) == L and all(len([x for r, ys in a[2] for x in ys]) == 1 and is_dir([x for r, ys in a[2] for x in ys][0], L) for a in lp[2])
            elif d[0] == "vec" or d[0] == "fld":
                good = False
            else:
                raise Undecided("directories: %s" % pp(d)[:80])
            R.check(good, "dirs:configured", "the configured directories, below the crate, are used: %s" % pp(d)[-150:], where)
        else:
            seen.add("default")
            if d[0] not in ("vec", "collect", "arr"):
                raise Undecided("directories: %s" % pp(d)[:80])
            j = join(d[1][0]) if d[0] in ("vec", "arr") and len(d[1]) == 1 else None
            R.check(j is not None and is_root(j[0]) and j[1] == ("str", "templates"), "dirs:default", "without configured directories the templates directory of the crate is used: %s" % pp(d)[-150:], where)
    for k in ("configured", "default"):
        R.check(k in seen, "dirs:" + k, "directories: %s" % k, where)


def is_dir(x, L):
    j = join(x)
    return j is not None and is_root(j[0]) and j[1] == ("elem", L)


def default(C):
    R = C.R
    where, ps = configs(C)
    S = ("fld", GEN_, "default_syntax")
    seen = set()
    for conds, evs, f, st in ps:
        if f is None:
            continue
        d = f["default_syntax"]
        if verdict(conds, GENERAL) == {"Some"} and verdict(conds, S) == {"Some"}:
            seen.add("configured")
            R.check(d == someof(S), "default:configured", "the configured default syntax is used: %s" % pp(d)[-60:], where)
        elif d[0] in ("static", "const", "str"):
            seen.add("default")
            R.check(const_of(C, d) == "default", "default:builtin", "without a configured one the built-in syntax is the default: %s" % pp(d)[-60:], where)
        else:
            R.bad("default:builtin", "without a configured one the built-in syntax is the default: %s" % pp(d)[-60:], where)
    for k in ("configured", "default"):
        R.check(k in seen, "default:" + k, "default syntax: %s" % k, where)


def file(C):
    R = C.R
    b = C.body("askama_derive", READ)
    where = b.where()
    E = C.engine("askama_derive", max_depth=3)
    P = ("param", "p0")
    seen = set()
    for st, rv in C.run(E, b):
        rv = E.norm(st, rv)
        v = verdict(st.conds, P)
        ex = [c for c in st.conds if c[0] == "t" and c[1][0] == "call" and c[1][1].split("::")[-1] in ("exists", "is_file")]
        reads = [c for c in st.conds if c[0] == "is" and c[1][0] == "call" and c[1][1].split("::")[-1] == "read_to_string"]
        for c in ex + reads:
            j = join(c[1][2][0])
            if j is None or not is_root(j[0]):
                R.bad("file:root", "configuration files are looked for below the crate: %s" % pp(c[1][2][0])[:80], where)
                continue
            if v == {"Some"}:
                good = j[1] == someof(P)
            elif v == {"None"}:
                good = j[1][0] in ("static", "const", "str") and const_of(C, j[1]) == "askama.toml"
            else:
                raise Undecided("name of the configuration file")
            R.check(good, "file:name", "%s: %s" % ("the file named is used" if v == {"Some"} else "askama.toml is used", pp(j[1])[:60]), where)
        k = "named" if v == {"Some"} else "default"
        if reads and reads[-1][2] == "Ok":
            R.check(is_agg(rv, "Ok") and fields(rv)["0"] == okof(reads[-1][1]), "file:contents", "the contents of the file count: %s" % pp(rv)[:80], where)
            seen.add(k + ":read")
        elif reads:
            missing = not ex and k == "default" and is_agg(rv, "Ok")
            if missing:
                raise Undecided("an unreadable default file")
            R.check(is_agg(rv, "Err"), "file:unreadable", "a file that cannot be read is an error: %s" % pp(rv)[:80], where)
            seen.add(k + ":unreadable")
        elif ex and ex[-1][2] is False:
            seen.add(k + ":missing")
            if k == "named":
                R.check(is_agg(rv, "Err"), "file:missing", "a file named that does not exist is an error: %s" % pp(rv)[:80], where)
            else:
                R.check(is_agg(rv, "Ok") and fields(rv)["0"] in (("str", ""), ("code", ())), "file:none", "without askama.toml there is no configuration: %s" % pp(rv)[:80], where)
        else:
            R.bad("file:exists", "%s: not looked for: %s" % (k, pp(rv)[:60]), where)
    for k in ("named:read", "default:read", "named:unreadable", "default:unreadable"):
        R.check(k in seen, "file:" + k, "configuration file %s" % k, where)


def keys(C):
    R = C.R
    vs, vm = args_of(C, "visit_str"), args_of(C, "visit_map")
    R.check("WhitespaceHandling" in vs, "keys:modes", "names of the modes")
    if "WhitespaceHandling" in vs:
        b = vs["WhitespaceHandling"]
        for st, rv in C.run(C.engine("askama_derive", max_depth=2), b):
            for k in key_of(st.conds, ("param", "p1"), MODES):
                if k is None:
                    R.check(is_agg(rv, "Err"), "mode:unknown", "an unknown whitespace mode in the file is an error: %s" % pp(rv)[:60], b.where())
                else:
                    R.check(is_agg(rv, "Ok") and is_agg(fields(rv)["0"], MODES[k]), "mode:" + k, "whitespace = %r: %s" % (k, pp(rv)[:60]), b.where())
    for ty, names in KEYS.items():
        if ty not in vs or ty not in vm:
            raise Missing("deserialisation of " + ty)
        b = vs[ty]
        variant = {}
        for st, rv in C.run(C.engine("askama_derive", max_depth=2), b):
            for k in key_of(st.conds, ("param", "p1"), names):
                if k is None:
                    continue
                if is_agg(rv, "Ok") and is_agg(fields(rv)["0"]):
                    variant[k] = fields(rv)["0"][2]
        b = vm[ty]
        where = b.where()
        dest, unset = {}, {}
        loops = {}
        for st, rv in C.run(C.engine("askama_derive", max_depth=2), b):
            if not is_agg(rv, "Ok"):
                continue
            s = fields(fields(rv)["0"])
            for e in st.ev:
                if e[0] == "loop":
                    for a in e[2]:
                        loops[a] = 1
            for n in names:
                x = s[n]
                if x[0] == "fld" and x[1][0] == "as" and x[1][1][0] == "lv":
                    dest.setdefault(n, set()).add(x[1][1])
                else:
                    unset.setdefault(n, set()).add(x)
        for n in names:
            ok_ = False
            for a in loops:
                key = [c for c in a[0] if c[0] == "is" and c[2] == variant.get(n) and c[2] and c[2] != "__ignore"]
                if key:
                    for lv, new in a[3]:
                        if new != lv and is_agg(new, "Some"):
                            ok_ = dest.get(n) == {lv} and any(isinstance(x, tuple) and x[:1] == ("call",) and x[1].split("::")[-1] == "next_value" for x in walk(new))
            R.check(ok_, "key:%s:%s" % (ty, n), "the key %s sets the option of its name (%s)" % (n, variant.get(n)), where)
            for x in unset.get(n, ()):
                if n == "whitespace":
                    R.check(is_agg(x, "Preserve"), "key:unset:" + n, "an unset %s is preserve: %s" % (n, pp(x)[:60]), where)
                elif n == "name" or ty == "RawEscaper":
                    R.check(x[0] == "fld", "key:unset:" + n, "%s cannot be left out: %s" % (n, pp(x)[:60]), where)
                else:
                    R.check(is_agg(x, "None") or mentions(x, ("str", n)), "key:unset:" + n, "%s is unset if left out: %s" % (n, pp(x)[:60]), where)
    b = C.body("askama_derive", TOML)
    src = set()
    for st, rv in C.run(C.engine("askama_derive", max_depth=2), b):
        src |= {x for x in walk((st.conds, rv)) if isinstance(x, tuple) and x[:1] == ("call",) and x[1].split("::")[-1] == "from_str"}
        if is_agg(rv, "Ok"):
            R.check(fields(rv)["0"][0] == "fld" and fields(rv)["0"][1][0] == "as" and fields(rv)["0"][1][2] == "Ok", "toml", "the file is deserialised: %s" % pp(rv)[:80], b.where())
    R.check(src and all(x[2] == (("param", "p0"),) for x in src), "toml", "the text of the file is deserialised: %s" % [pp(x)[:60] for x in src], b.where())


def wiring(C):
    R = C.R
    b, ps = build_paths(C)
    where = b.where()
    ARGS = ("call", "args", (("param", "p0"),))
    FILE = ("call", "config-file", (("fld", ARGS, "config"),))
    CFG = ("call", "config", (FILE, ("fld", ARGS, "whitespace")))
    seen = set()
    for conds, evs, rv in ps:
        for e in flat_events(evs):
            if e[0] != "op":
                continue
            a = e[2:]
            if e[1] == "config-file":
                R.check(same(conds, a[0], FILE[2][0]), "wiring:file", "the file is the one of the config attribute: %s" % [pp(x)[:60] for x in a], where)
            elif e[1] == "config":
                R.check(same(conds, a[0], FILE), "wiring:contents", "the configuration is that of the file read: %s" % pp(a[0])[:80], where)
                R.check(same(conds, a[1], CFG[2][1]), "wiring:whitespace", "the whitespace attribute is passed on: %s" % pp(a[1])[:80], where)
            elif e[1] == "input":
                R.check(same(conds, a[1], CFG) and a[2] == ARGS, "wiring:input", "the template uses this configuration and its own attributes: %s" % [pp(x)[:80] for x in a[1:]], where)
            else:
                continue
            seen.add(e[1])
    for k in ("config-file", "config", "input"):
        R.check(k in seen, "wiring:" + k, "the derive macro uses the %s" % k, where)


def same(conds, x, want):
    """Equal, also if an option was taken apart and rebuilt."""
    if x == want:
        return True
    if is_agg(x, "Some"):
        return fields(x)["0"] == someof(want)
    if is_agg(x, "None"):
        return ("is", want, "None") in conds
    if x[0] == "call" and want[0] == "call":
        return x[1] == want[1] and len(x[2]) == len(want[2]) and all(same(conds, a, b) for a, b in zip(x[2], want[2]))
    return False


def syntax(C):
    R = C.R
    b, ps = input_paths(C)
    where = b.where()
    S, D = ("fld", ("param", "p2"), "syntax"), ("fld", ("param", "p1"), "default_syntax")
    MAP = ("fld", ("param", "p1"), "syntaxes")
    seen = set()
    for conds, evs, rv, st in ps:
        v = verdict(conds, S)
        name = someof(S) if v == {"Some"} else D
        if is_agg(rv, "Ok"):
            if v not in ({"Some"}, {"None"}):
                raise Undecided("syntax attribute")
            x = fields(fields(rv)["0"])["syntax"]
            got = x[1][1][2] if x[0] == "fld" and x[1][0] == "as" and x[1][1][0] == "call" and x[1][1][1].split("::")[-1] == "get" else x[1:] if x[0] == "idx" else None
            k = "named" if v == {"Some"} else "default"
            seen.add(k)
            R.check(got == (MAP, name), "syntax:" + k, "the syntax is the %s one: %s" % (k, pp(x)[:80]), where)
    for k in ("named", "default"):
        R.check(k in seen, "syntax:" + k, "syntax: %s" % k, where)
