"""TemplateInput::new must search the configured escapers in order for the first one that lists the escape attribute if it is
set and else the extension of the template's path, with the empty text for none, and fail if no escaper does. Config::new must
list the user-defined escapers in their order, each with its own extensions and path, before the built-in ones, and the table of
the built-in ones must give Html for the HTML-like extensions and Text for text, under the path of the crate. The escape filter
must search the same list by the name given, failing on an unknown one, and use the template's escaper without a name."""
from conflib import *
from exprlib import *

HTML = ("html", "htm", "svg", "xml", "j2", "jinja", "jinja2")
TEXT = ("md", "none", "txt", "typ", "yml", "")


def run(C):
    R = C.R
    R.floor = 30
    R.section("select", select, C)
    R.section("list", listing, C)
    R.section("table", table, C)
    R.section("filter", escape_filter, C)


def input_paths(C):
    """Paths of TemplateInput::new: (conds, events, result, state)."""
    if not hasattr(C, "_input"):
        b = C.body("askama_derive", "input::TemplateInput::new")
        V = {"config::Config::find_template": pure("find"), "input::extension_to_mime_type": pure("mime")}
        E = C.engine("askama_derive", max_depth=4, vocab=V)
        C._input = b, [(st.conds, st.ev, E.norm(st, rv), st) for st, rv in C.run(E, b)]
    return C._input


def search(C, conds, evs, value, table, key, what, where):
    """The value is that of the first entry of the table that lists the key. True if it was decided."""
    R = C.R
    el = ("elem", table)
    if any(isinstance(x, tuple) and x[:1] == ("lv",) for x in walk(value)):
        for e in evs:
            if e[0] == "loop" and loop_src(e) == table:
                for a in e[2]:
                    for lv, new in a[3]:
                        if lv in set(walk(value)) and new != lv:
                            if any(c[0] == "is" and c[1] == lv and c[2] == "None" for c in a[0]):
                                raise Undecided("search with a flag")
                            R.bad(what + ":first", "the first escaper that lists the name counts, not a later one", where)
                            return
        raise Undecided("escaper %s" % pp(value)[:60])
    odd = [c for c in conds if c[0] == "iter" and c[1] == table and len(c) > 3]
    R.check(not odd, what + ":order", "the escapers are searched in order: %s" % [pp(c)[-60:] for c in odd], where)
    R.check(value == ("fld", el, "1"), what + ":value", "the escaper of the entry found is used: %s" % pp(value)[-80:], where)
    has = [c for c in conds if lists(c, el, key) is True]
    R.check(bool(has), what + ":lists", "it lists %s: %s" % (pp(key)[-60:], [pp(c)[-80:] for c in conds if mentions(c, el)]), where)
    extra = [c for c in conds if c[0] in ("t", "is", "not") and mentions(c, el) and lists(c, el, key) is None]
    R.check(not extra, what + ":only", "nothing else counts: %s" % [pp(c)[-80:] for c in extra], where)
    for e in evs:
        if e[0] == "loop" and loop_src(e) == table:
            for a in e[2]:
                R.check(any(lists(c, el, key) is False for c in a[0]), what + ":skip", "an escaper is passed over only if it does not list the name: %s" % [pp(c)[-60:] for c in a[0]], where)


def lists(c, el, key):
    if key == ("str", "") and mentions(c, ("code", ())):
        c = subst(c, {("code", ()): key})
    if c[0] == "t" and c[1][0] == "call" and c[1][1].split("::")[-1] == "contains" and c[1][2] == (("fld", el, "0"), key):
        return c[2]
    if c[0] == "is" and c[1][0] == "call" and c[1][1].split("::")[-1] == "get" and c[1][2] == (("fld", el, "0"), key):
        return c[2] == "Some"
    return None


def select(C):
    R = C.R
    b, ps = input_paths(C)
    where = b.where()
    ESC = ("fld", ("param", "p2"), "escaping")
    TABLE = ("fld", ("param", "p1"), "escapers")
    kinds = {}
    for conds, evs, rv, st in ps:
        if is_agg(rv, "Err"):
            continue
        if not is_agg(rv, "Ok"):
            raise Undecided("result %s" % pp(rv)[:60])
        f = fields(fields(rv)["0"])
        mode = {c[2] for c in conds if c[0] == "is" and c[1] == ESC}
        e = base_of(f["escaper"])
        path = f["path"]
        if mode == {"Some"}:
            key, kind = someof(ESC), "declared"
        elif mode == {"None"}:
            exts = {c[1]: c[2] for c in conds if c[0] == "is" and c[1][0] == "call" and c[1][1].split("::")[-1] == "extension"}
            own = [x for x in exts if same_path(C, x[2][0], path, st)]
            if not R.check(len(own) >= 1, "select:extension", "without a mode the extension of the path counts: %s" % [pp(x)[:80] for x in exts], where):
                continue
            x = own[0]
            if exts[x] == "None":
                key, kind = ("str", ""), "none"
            else:
                text = {c[1]: c[2] for c in conds if c[0] == "is" and c[1][0] == "call" and c[1][1].split("::")[-1] == "to_str" and c[1][2] == (someof(x),)}
                if "None" in text.values():
                    continue    # the paths come from strings
                ks = list(text)
                key, kind = (someof(ks[0]) if ks else someof(x)), "extension"
        else:
            raise Undecided("escaping mode")
        kinds[kind] = kinds.get(kind, 0) + 1
        search(C, conds, evs, e, TABLE, key, "select:" + kind, where)
    for k in ("declared", "extension", "none"):
        R.check(k in kinds, "select:" + k, "escaper selected by: %s" % k, where)
    # a search without result fails
    for conds, evs, rv, st in ps:
        if any(c[0] == "iter" and c[1] == TABLE and c[2] in ("end", "none-found") for c in conds):
            found = any(isinstance(x, tuple) and x[:1] == ("lv",) for x in walk(fields(fields(rv)["0"])["escaper"])) if is_agg(rv, "Ok") else False
            if not found:
                R.check(is_agg(rv, "Err"), "select:unknown", "an extension or mode no escaper lists is an error", where)


def same_path(C, a, b, st):
    return base_of(a) == base_of(b) or base_of(b) in set(walk(a))


def listing(C):
    R = C.R
    b, ps = config_paths(C)
    where = b.where()
    raw = okof(("call", "toml", (("param", "p0"),)))
    ESC = ("fld", raw, "escaper")
    DEF = ("static", "config::DEFAULT_ESCAPERS")
    n = 0
    for conds, evs, rv, st in ps:
        if not is_agg(rv, "Ok"):
            continue
        v = fields(fields(rv)["0"])["escapers"]
        want = [DEF]
        if ("is", ESC, "Some") in conds:
            want = [someof(ESC), DEF]
        parts = []
        if v[0] != "vec":
            raise Undecided("list of escapers: %s" % pp(v)[:80])
        for x in v[1]:
            if x[0] != "star":
                raise Undecided("escaper %s" % pp(x)[:80])
            lp = [e for e in evs if e[0] == "loop" and e[1] == x[1]]
            if len(lp) != 1:
                raise Undecided("loop of the escapers")
            lp = lp[0]
            src = loop_src(lp)
            R.check(not any(len(c) > 3 for a in lp[2] for c in a[0] if c[0] == "iter" and c[1] == src), "list:order", "the escapers keep their order: %s" % pp(src)[-60:], where)
            parts.append(src)
            el = ("elem", src)
            for a in lp[2]:
                add = [y for root, ys in a[2] for y in ys]
                if not R.check(len(add) == 1, "list:all", "every escaper is listed once: %d, %s" % (len(add), [pp(c)[-60:] for c in a[0]]), where):
                    continue
                if not is_agg(add[0]) or len(fields(add[0])) != 2:
                    raise Undecided("escaper entry %s" % pp(add[0])[:80])
                ext, path = fields(add[0])["0"], fields(add[0])["1"]
                user = src == someof(ESC)
                we, wp = (("fld", el, "extensions"), ("fld", el, "path")) if user else (("fld", el, "0"), ("fld", el, "1"))
                k = "list:user" if user else "list:builtin"
                if ext[0] == "collect":
                    same = all(not [c for c in cs if c[0] != "iter"] and (y == ("elem", we) or y == ("call", "to_string", (("elem", we),))) for cs, y in ext[2])
                    R.check(ext[1] == we and same and len(ext) == 3, k + ":extensions", "with all its extensions: %s" % pp(ext)[-80:], where)
                else:
                    R.check(base_of(ext) == we, k + ":extensions", "with all its extensions: %s" % pp(ext)[-80:], where)
                if user:
                    R.check(base_of(path) == wp or path == ("code", (("h", wp, ""),)), k + ":path", "and its path: %s" % pp(path)[-80:], where)
                else:
                    toks = path[1] if path[0] == "code" else ()
                    good = len(toks) == 2 and toks[1][:2] == ("h", wp) and (toks[0] == ("s", "::askama") or toks[0][0] == "h" and const_of(C, toks[0][1]) == "::askama")
                    R.check(good, k + ":path", "and its path in the crate: %s" % pp(path)[-80:], where)
                n += 1
        R.check(parts == want, "list:first", "user-defined escapers come before the built-in ones: %s" % [pp(x)[-50:] for x in parts], where)
    R.check(n >= 2, "list", "user-defined and built-in escapers", where)


def table(C):
    R = C.R
    t = const_of(C, ("static", "config::DEFAULT_ESCAPERS"))
    where = "askama_derive/src/config.rs"
    for exts, want in ((HTML, "::Html"), (TEXT, "::Text")):
        for x in exts:
            got = [p for es, p in t if x in es]
            R.check(got[:1] == [want], "table:" + (x or "(none)"), "%r is escaped with %s: %s" % (x, want, got), where)
    R.check(const_of(C, ("static", "CRATE")) == "::askama", "table:crate", "the escapers are those of the crate", where)


def escape_filter(C):
    R = C.R
    b = C.body("askama_derive", GEN + "_visit_escape_filter")
    where = b.where()
    E = engine(C, max_depth=4)
    CFG = ("fld", ("fld", ("fld", ("param", "p0"), "input"), "config"), "escapers")
    OWN = ("fld", ("fld", ("param", "p0"), "input"), "escaper")
    n = set()
    for st, rv in run_gen(C, E, b, bufs=("p1",)):
        conds, evs = st.conds, tuple(flat_events(st.ev))
        second = [(c[1], c[2]) for c in conds if c[0] == "is" and c[1][0] == "call" and c[1][1].split("::")[-1] == "get" and c[1][2][1] == ("int", 1)]
        if not is_agg(rv, "Ok"):
            continue
        if any(c[0] == "iter" and c[1] == CFG and c[2] in ("end", "none-found") for c in conds):
            R.bad("filter:unknown", "a mode no escaper lists is an error", where)
            continue
        toks = [t for e in evs if e[0] == "op" and e[1] == "emit" for t in e[3]]
        esc = [t[1] for t in toks if t[0] == "h" and (mentions(t[1], CFG) or mentions(t[1], OWN))]
        if not R.check(len(esc) == 1, "filter:one", "one escaper is named: %s" % [pp(x)[-60:] for x in esc], where):
            continue
        if not second:
            raise Undecided("arguments of the escape filter")
        arg, v = second[0]
        if v == "None":
            n.add("own")
            R.check(esc[0] == OWN, "filter:own", "without a name the template's escaper is used: %s" % pp(esc[0])[-60:], where)
        else:
            n.add("named")
            name = ("fld", ("as", someof(arg), "StrLit"), "0")
            search(C, conds, tuple(st.ev), esc[0], CFG, name, "filter:named", where)
    for k in ("own", "named"):
        R.check(k in n, "filter:" + k, "escape filter with the escaper: %s" % k, where)
