"""Config::find_template must yield the path relative to the given template if such a file exists, otherwise the first
configured directory with such a file, in order, and an error otherwise. find_used_templates must start with the template
itself and, until its work list is empty, parse each template under its own path, visit the bodies of every kind of node,
and for every extends, import and include tag look up the path given relative to the template being visited and put it on
the work list with the source of that very file unless it is known already; a failed lookup must be an error. Contexts must
be built for every template loaded, under its path. The generator must look up included templates relative to the template
of the current context, which in a macro is the one defining it, and generate the context of that template. The generated
code must refer to the canonical path of every template with a context except inline source, and of every include."""
from g09 import *

FIND, SRC, PARSE = "config::Config::find_template", "config::get_template_source", "askama_parser::Parsed::new"
CONTAINS = ("contains_key", "get")


def run(C):
    R = C.R
    R.floor = 45
    R.section("finder", finder, C)
    R.section("discovery", discovery, C)
    R.section("contexts", contexts, C)
    R.section("include", include, C)
    R.section("macro", macro, C)
    R.section("tracking", tracking, C)


# ------------------------------------------------------------------ lookup
def finder(C):
    R = C.R
    b = C.body("askama_derive", FIND)
    where = b.where()
    E = C.engine("askama_derive", max_depth=3)
    START, DIRS, P = ("param", "p2"), ("fld", ("param", "p0"), "dirs"), ("param", "p1")
    rel = ("call", "std::path::Path::with_file_name", (("fld", ("as", START, "Some"), "0"), P))

    def is_(t, fn, *a):
        return t[0] == "call" and t[1].split("::")[-1] == fn and t[2] == a

    def exists(t):
        return t[2][0] if t[0] == "call" and t[1].split("::")[-1] in ("exists", "is_file") else None
    kinds = set()
    for st, rv in C.run(E, b):
        v = {c[1]: c[2] for c in st.conds if c[0] == "is"}
        tests = {exists(c[1]): c[2] for c in st.conds if c[0] == "t" and exists(c[1]) is not None}
        odd = [c for c in st.conds if c[0] == "iter" and (c[1] != DIRS or len(c) > 3)]
        if odd:
            R.bad("find:order", "the directories are tried in order: %s" % pp(odd[0])[:80], where)
            continue
        rels = [t for t in tests if t is not None and is_(t, "with_file_name", ("fld", ("as", START, "Some"), "0"), P)]
        if is_agg(rv, "Ok"):
            x = fields(rv)["0"]
            R.check(tests.get(x) is True, "find:exists", "the file found exists: %s" % pp(x)[:80], where)
            if x in rels:
                kinds.add("relative")
                continue
            el = ("elem", DIRS)
            R.check(is_(x, "join", el, P), "find:directory", "the file is looked for in the configured directories: %s" % pp(x)[:80], where)
            if v.get(START) != "None":
                R.check(len(rels) == 1 and tests[rels[0]] is False, "find:relative-first", "a file next to the template comes first", where)
            # directories passed over have no such file
            for e in st.ev:
                if e[0] == "loop":
                    for a in e[2]:
                        R.check(any(c[0] == "t" and c[2] is False and exists(c[1]) == x for c in a[0]), "find:skip", "a directory is passed over only if it has no such file", where)
            kinds.add("directory:" + str(v.get(START)))
        elif is_agg(rv, "Err"):
            R.check(any(c[0] == "iter" and c[2] in ("end", "none-found") for c in st.conds), "find:error", "an error only after all directories", where)
            if v.get(START) != "None":
                R.check(len(rels) == 1, "find:error", "an error only without a file next to the template", where)
            kinds.add("error:" + str(v.get(START)))
        else:
            raise Undecided("result of find_template: %s" % pp(rv)[:80])
    for k in ("relative", "directory:Some", "directory:None", "error:Some", "error:None"):
        R.check(k in kinds, "find:" + k, "lookup ends with %s" % k, where)


# ------------------------------------------------------------------ discovery
def pure(name):
    def h(E, fr, st, a, line):
        return [(st, ("call", name, tuple(E.norm(st, x) for x in a)))]
    return h


def okof(t):
    return ("fld", ("as", t, "Ok"), "0")


def discovery(C):
    R = C.R
    for f in (FIND, SRC):
        if f not in C.P.crates["askama_derive"].by:
            raise Missing("askama_derive::" + f)
    W = Walk(C, "input::TemplateInput::find_used_templates", max_depth=3,
             extra={FIND: pure("find"), SRC: pure("source"), PARSE: pure("parse"), "askama_parser::Parsed::nodes": pure("nodes")})
    where = W.b.where()
    MAP = "p1"
    n = {}
    for kind in body_fields(C):
        alts = W.kind(C, kind)
        if not R.check(bool(alts), "visit:" + kind, "%s nodes are visited" % kind, where):
            continue
        for k, no, conds, evs, upd, el, src, outer in alts:
            work = work_item(outer)
            flags = {c[1]: c[2] for c in conds if c[0] == "t" and c[1][0] == "lv"}
            below = [lv for lv, x in flags.items() if x is False]
            if below:
                R.check(kind in ("Macro", "Extends", "Import") and top_flag(below[0], outer), "visit:%s:top" % kind, "%s nodes are visited wherever they may be" % kind, where)
                continue
            pushed = [x for x, _ in bodies_pushed(evs, el, kind)[0]]
            for want in body_terms(C, el, kind):
                R.check(want in pushed, "visit:%s:%s" % (kind, want[2]), "the body %s of %s is visited" % (pp(want)[-40:], kind), where)
            if any(len(c) > 3 for c in conds if c[0] == "iter") or any(len(c) > 3 for lp, al in outer for c in al[0] if c[0] == "iter"):
                R.bad("visit:all", "all nodes are visited: %s" % [pp(c)[-40:] for c in conds if c[0] == "iter" and len(c) > 3], where)
            if kind not in ("Extends", "Import", "Include"):
                continue
            # the dependency
            p = ("fld", ("fld", ("as", el, kind), "0"), "path")
            cur = ("fld", work, "0")
            finds = {x for c in conds for x in walk(c) if isinstance(x, tuple) and x[:2] == ("call", "find")} | {x for e in evs for x in walk(e) if isinstance(x, tuple) and x[:2] == ("call", "find")}
            if not finds:
                if any(c[0] == "t" and c[2] is False and mentions(c, el) for c in conds):
                    raise Undecided("%s tags are skipped under a condition" % kind)
                R.bad("find:" + kind, "%s tags are followed" % kind, where)
                continue
            f = [x for x in finds if x[2][1] == p]
            if not R.check(len(f) == 1, "find:" + kind, "the path of the %s tag is looked up: %s" % (kind, [pp(x[2][1])[-50:] for x in finds]), where):
                continue
            f = f[0]
            R.check(is_agg(f[2][2], "Some") and fields(f[2][2])["0"] == cur, "find:%s:relative" % kind, "relative to the template that contains the tag: %s" % pp(f[2][2])[-60:], where)
            R.check(("is", f, "Err") not in conds, "find:%s:error" % kind, "a failed lookup is an error", where)
            found = okof(f)
            known = [c for c in conds if c[0] == "t" and c[2] is True and c[1][0] == "call" and c[1][1].split("::")[-1] in CONTAINS and base_of(c[1][2][0]) == ("param", MAP) and c[1][2][1] == found]
            known += [c for c in conds if c[0] == "is" and c[2] == "Some" and c[1][0] == "call" and c[1][1].split("::")[-1] == "get" and base_of(c[1][2][0]) == ("param", MAP) and c[1][2][1] == found]
            if known:
                n.setdefault(kind, set()).add("known")
                continue
            ops = [e for e in flat_events(evs) if e[0] == "op"]
            ins = [e for e in ops if e[1] == "insert" and e[2] == MAP]
            apps = [e for e in ops if e[1] == "append" and is_agg(e[3]) and fields(e[3]).get("0") == found]
            R.check(len(apps) == 1, "load:" + kind, "a template not known yet is put on the work list: %d" % len(apps), where)
            for e in ins:
                R.check(e[3] == found, "load:%s:mark" % kind, "only the template put on the work list is marked as known: %s" % pp(e[3])[-60:], where)
            for e in apps:
                s = base_of(fields(e[3])["1"])
                R.check(strip_ok(s) == ("call", "source", (found,)), "load:%s:source" % kind, "with the source of that file: %s" % pp(s)[-60:], where)
                n.setdefault(kind, set()).add("load")
    for kind in ("Extends", "Import", "Include"):
        R.check("load" in n.get(kind, ()), "follow:" + kind, "%s tags are followed" % kind, where)
    worklist(C, W, where)


def strip_ok(t):
    while t[0] == "fld" and t[2] == "0" and t[1][0] == "as" and t[1][2] == "Ok":
        t = t[1][1]
        return t
    return t


def work_item(outer):
    """The item of the work list whose nodes are being visited: of the outermost loop that pops something."""
    for lp, al in outer:
        for c in al[0]:
            if c[0] == "is" and c[2] == "Some" and c[1][0] == "call" and c[1][1].split("::")[-1] in ("pop", "pop_front"):
                return ("fld", ("as", c[1], "Some"), "0")
    raise Undecided("work list of templates")


def top_flag(lv, outer):
    """Is the flag true for the first list of nodes of a template?"""
    for lp, al in outer:
        for l, v in lp[3]:
            if l == lv:
                return v == TRUE
    return False


def worklist(C, W, where):
    R = C.R
    selfp = ("fld", ("param", "p0"), "path")
    srcs = ("fld", ("param", "p0"), "source")
    n = 0
    for conds, evs, rv, st in W.paths:
        if not is_agg(rv, "Ok"):
            continue
        lps = [e for e in evs if e[0] == "loop" and any(c[0] == "is" and c[1][0] == "call" and c[1][1].split("::")[-1] in ("pop", "pop_front") for a in e[2] for c in a[0])]
        if len(lps) != 1:
            raise Undecided("%d work lists" % len(lps))
        lp = lps[0]
        R.check(any(c[0] == "is" and c[2] == "None" and c[1][0] == "call" and c[1][1].split("::")[-1] in ("pop", "pop_front") for c in conds), "work:end", "success only when the work list is empty", where)
        first = [x for lv, v in lp[3] for x in walk(v) if isinstance(x, tuple) and is_agg(x) and x[1] == "tuple" and fields(x).get("0") == selfp]
        if R.check(bool(first), "work:first", "the work list starts with the template itself", where):
            s = base_of(fields(first[0])["1"])
            inline = ("is", srcs, "Source") in conds
            if inline:
                R.check(mentions(s, srcs), "work:source", "with its inline source: %s" % pp(s)[-60:], where)
            else:
                R.check(strip_ok(s) == ("call", "source", (selfp,)), "work:source", "with the source of its file: %s" % pp(s)[-60:], where)
            n += 1
        for a in lp[2]:
            pop = [c[1] for c in a[0] if c[0] == "is" and c[2] == "Some" and c[1][0] == "call" and c[1][1].split("::")[-1] in ("pop", "pop_front")]
            if not pop:
                raise Undecided("iteration of the work list")
            item = ("fld", ("as", pop[0], "Some"), "0")
            ins = [e for e in a[1] if e[0] == "op" and e[1] == "insert" and e[2] == "p1"]
            R.check(len(ins) == 1 and ins[0][3] == ("fld", item, "0"), "work:store", "every template is stored under its path: %s" % [pp(e[3])[-50:] for e in ins], where)
            for e in ins:
                v = e[4]
                ps = [x for x in walk(v) if isinstance(x, tuple) and x[:2] == ("call", "parse")] if v is not None else []
                R.check(len(ps) == 1 and base_of(ps[0][2][0]) == ("fld", item, "1"), "work:parse", "what is stored is its own source, parsed: %s" % [pp(x)[-80:] for x in ps], where)
                inner = [x for x in a[1] if x[0] == "loop"]
                ns = [x for l in inner for lv, v2 in l[3] for x in walk(v2) if isinstance(x, tuple) and x[:2] == ("call", "nodes")] + [x for l in inner for x in walk(l[2]) if isinstance(x, tuple) and x[:2] == ("call", "nodes")]
                R.check(bool(ns) and all(x[2][0] == v or mentions(v, x[2][0]) or mentions(x[2][0], ps[0] if ps else v) for x in ns), "work:nodes", "the nodes visited are those of this template", where)
    R.check(n >= 2, "work", "inline templates and files", where)


# ------------------------------------------------------------------ contexts
def contexts(C):
    R = C.R
    b, ps = build_paths(C)
    where = b.where()
    n = 0
    for conds, evs, rv in ps:
        gens = [e[1:] for e in flat_events(evs) if e[0] == "op" and e[1] == "generate"]
        if not is_agg(rv, "Ok") or not gens:
            continue
        fi = [i for i, e in enumerate(evs) if e[0] == "op" and e[1] == "find"]
        lps = [(i, e) for i, e in enumerate(evs) if e[0] == "loop" and any(x[0] == "op" and x[1] == "context" for x in flat_events((e,)))]
        if len(lps) != 1:
            raise Undecided("%d loops over the templates" % len(lps))
        i, lp = lps[0]
        R.check(len(fi) == 1 and fi[0] < i, "contexts:after", "the contexts are built after all templates have been found", where)
        src = loop_src(lp)
        f = evs[fi[0]] if fi else None
        R.check(f is not None and base_of(src) == base_of(f[3]), "contexts:templates", "for the templates found: %s" % pp(src)[:60], where)
        el = ("elem", src)
        for a in lp[2]:
            if any(len(c) > 3 for c in a[0] if c[0] == "iter"):
                R.bad("contexts:all", "for all templates: %s" % pp(a[0])[:80], where)
            ops = [e for e in flat_events(a[1]) if e[0] == "op"]
            cx = [e for e in ops if e[1] == "context"]
            ins = [e for e in ops if e[1] == "insert"]
            if not cx:
                if a[0] and all(c[0] == "iter" for c in a[0]):
                    R.bad("contexts:all", "for all templates", where)
                    continue
                raise Undecided("templates without context: %s" % [pp(c)[:80] for c in a[0]])
            R.check(cx[0][3] == ("fld", el, "0"), "contexts:path", "a context has the path of its template: %s" % pp(cx[0][3])[:60], where)
            R.check(mentions(cx[0][4], ("fld", el, "1")), "contexts:nodes", "and its nodes: %s" % pp(cx[0][4])[:60], where)
            R.check(len(ins) == 1 and ins[0][3] == ("fld", el, "0") and mentions(ins[0][4], ("fld", el, "0")), "contexts:key", "and is stored under its path: %s" % [pp(e[3])[:60] for e in ins], where)
            n += 1
        for g in gens:
            own = g[2]
            ok_ = own[0] == "idx" and own[2][0] == "fld" and own[2][2] == "path" or own[0] == "fld" and own[1][0] == "as" and own[1][1][0] == "call" and own[1][1][1].endswith("get") and own[1][1][2][1][0] == "fld" and own[1][1][2][1][2] == "path"
            R.check(ok_ and mentions(own, ("call", "input", f[2][2] if False else [x for x in walk(own) if isinstance(x, tuple) and x[:2] == ("call", "input")][0][2]) if [x for x in walk(own) if isinstance(x, tuple) and x[:2] == ("call", "input")] else own),
                    "contexts:own", "the code is generated for the template itself: %s" % pp(own)[-60:], where)
    R.check(n > 0, "contexts", "contexts are built", where)
    # the path of a context
    W = Walk(C, "heritage::Context::new", max_depth=3, extra={FIND: pure("find")})
    for conds, evs, rv, st in W.paths:
        if is_agg(rv, "Ok"):
            p = fields(fields(rv)["0"]).get("path")
            R.check(is_agg(p, "Some") and fields(p)["0"] == ("param", "p1"), "context:path", "a context knows the path of its template: %s" % pp(p)[:60], W.b.where())
    for kind in ("Extends", "Import"):
        for k, no, conds, evs, upd, el, src, outer in W.kind(C, kind):
            p = ("fld", ("fld", ("as", el, kind), "0"), "path")
            fs = {x for x in walk((conds, evs, upd)) if isinstance(x, tuple) and x[:2] == ("call", "find") and mentions(x, el)}
            for f in fs:
                good = f[2][1] == p and is_agg(f[2][2], "Some") and fields(f[2][2])["0"] == ("param", "p1")
                R.check(good, "context:" + kind, "%s paths are looked up as in the discovery: %s" % (kind, pp(f)[-100:]), W.b.where())
            R.check(bool(fs), "context:" + kind, "%s paths are looked up" % kind, W.b.where())


# ------------------------------------------------------------------ generation
def include(C):
    R = C.R
    b = C.body("askama_derive", GEN + "handle_include")
    where = b.where()
    E = engine(C, max_depth=4, extra={FIND: pure("find")})
    n = 0
    for st, rv in run_gen(C, E, b, bufs=("p2",)):
        fs = {x for c in st.conds for x in walk(c) if isinstance(x, tuple) and x[:2] == ("call", "find")} | {x for e in st.ev for x in walk(e) if isinstance(x, tuple) and x[:2] == ("call", "find")}
        if not R.check(len(fs) == 1, "include:find", "the template is looked up: %s" % [pp(x)[:60] for x in fs], where):
            continue
        f = fs.pop()
        if ("is", f, "Err") in st.conds:
            R.check(is_agg(rv, "Err"), "include:error", "a failed lookup is an error", where)
            continue
        if not is_agg(rv, "Ok"):
            continue
        n += 1
        R.check(f[2][1] == ("fld", ("param", "p3"), "path"), "include:path", "the path given is looked up: %s" % pp(f[2][1])[:60], where)
        R.check(f[2][2] == ("fld", ("param", "p1"), "path"), "include:relative", "relative to the template of the context: %s" % pp(f[2][2])[:60], where)
        found = okof(f)
        own = lookup(("fld", ("param", "p0"), "contexts"), found)
        hs = [e[1:] for e in flat_events(st.ev) if e[0] == "op" and e[1] == "handle"]
        if not R.check(len(hs) == 1, "include:once", "the template is generated once: %d" % len(hs), where):
            continue
        cx = hs[0][3]
        b0 = base_of(cx)
        direct = b0 in own
        chained = any(x[:2] == ("call", "Heritage::new") and base_of(x[2][0]) in own for x in walk(b0) if isinstance(x, tuple)) and cx[0] == "fld" and cx[2] == "root"
        R.check(direct or chained, "include:template", "the included template is generated, from its root: %s" % pp(cx)[:100], where)
        R.check(hs[0][4] == ("fld", cx, "nodes") or hs[0][4] == ("fld", b0, "nodes"), "include:nodes", "with all its nodes: %s" % pp(hs[0][4])[-60:], where)
        # the reference here is redundant (the file has a context): only a wrong one matters
        emits = [e for e in flat_events(st.ev) if e[0] == "op" and e[1] == "emit"]
        if any("include_" in x[1] for e in emits for x in e[3] if x[0] == "s"):
            track(C, emits, found, "include", where)
    R.check(n > 0, "include", "templates can be included", where)


def lookup(m, k):
    return (("idx", m, k), ("fld", ("as", ("call", "std::collections::HashMap::get", (m, k)), "Some"), "0"))


def track(C, emits, path, key, where):
    """include_bytes of the canonical path is emitted."""
    toks = [t for e in emits for t in e[3]]
    t = nows("".join(x[1] if x[0] == "s" else "⟦⟧" for x in toks))
    i = t.find("include_bytes!(")
    if i < 0:
        i = t.find("include_str!(")
    if not C.R.check(i >= 0, key + ":track", "the code refers to the file: %s" % t[:80], where):
        return
    hs = [x[1] for x in toks if x[0] == "h" and mentions(x[1], path)]
    C.R.check(bool(hs), key + ":track:path", "by its own path: %s" % [pp(x[1])[:80] for x in toks if x[0] == "h"][:2], where)
    for h in hs:
        C.R.check(any(isinstance(x, tuple) and x[:1] == ("call",) and x[1].split("::")[-1] in ("canonicalize", "absolute") for x in walk(h)), key + ":track:absolute", "absolutely, as the code is compiled elsewhere: %s" % pp(h)[:80], where)


def macro(C):
    R = C.R
    b = C.body("askama_derive", GEN + "write_call")
    where = b.where()
    E = engine(C, max_depth=6)
    n = 0
    for st, rv in run_gen(C, E, b, bufs=("p2",)):
        if not is_agg(rv, "Ok"):
            continue
        for e in flat_events(st.ev):
            if e[0] != "op" or e[1] != "handle" or not is_agg(e[6], "Nested"):
                continue
            nodes, cx = e[5], e[4]
            d = base_of(nodes)
            if d[0] != "fld" or d[2] != "nodes":
                continue
            entry = d[1][1] if d[1][0] == "fld" and d[1][2] == "0" and d[1][1][0] == "fld" else None
            p = E.norm(st, E.proj(cx, ("f", "path")))
            n += 1
            if p == ("fld", ("param", "p1"), "path"):
                same = [c for c in st.conds if c[0] == "t" and c[2] is True and mentions(c, p)]
                R.check(bool(same), "macro:path", "files named in a macro are relative to the template defining it, not to the caller", where)
            elif entry is not None and is_agg(p, "Some"):
                R.check(fields(p)["0"] == ("fld", entry, "1"), "macro:path", "files named in a macro are relative to the template defining it: %s" % pp(p)[-60:], where)
            elif p[0] == "fld" and p[2] == "path":
                # an imported template: its macros are its own
                R.check(mentions(p[1], ("fld", ("param", "p0"), "contexts")) and mentions(nodes, p[1]), "macro:path", "files named in a macro are relative to the template defining it: %s" % pp(p)[-60:], where)
            else:
                raise Undecided("path in a macro: %s" % pp(p)[:100])
    R.check(n >= 2, "macro", "local and imported macros", where)
    W = Walk(C, "heritage::Context::new", max_depth=3, extra={FIND: pure("find")})
    for k, no, conds, evs, upd, el, src, outer in W.kind(C, "Macro"):
        for e in flat_events(evs):
            if e[0] == "op" and e[1] == "insert":
                v = e[4]
                R.check(is_agg(v) and ("param", "p1") in fields(v).values(), "macro:origin", "a macro is stored with the path of its template: %s" % pp(v)[-40:], W.b.where())


# ------------------------------------------------------------------ rebuild tracking
def tracking(C):
    R = C.R
    b, ps = template_paths(C)
    where = b.where()
    keys = {("call", n, (("fld", ("param", "p0"), "contexts"),)) for n in ("std::collections::HashMap::keys", "keys")}
    SOURCE, OWN = ("fld", ("fld", ("param", "p0"), "input"), "source"), ("fld", ("fld", ("param", "p0"), "input"), "path")
    n = 0
    for conds, evs, rv in ps:
        if not is_agg(rv, "Ok"):
            continue
        lps = []
        for e in evs:
            if e[0] == "loop":
                try:
                    s = loop_src(e)
                except Undecided:
                    continue
                if s in keys or s == ("fld", ("param", "p0"), "contexts"):
                    lps.append((e, s))
        if not R.check(len(lps) >= 1, "track", "the files used are visited", where):
            continue
        e, s = lps[0]
        el = ("elem", s) if s in keys else ("fld", ("elem", s), "0")
        for a in e[2]:
            if any(len(c) > 3 for c in a[0] if c[0] == "iter"):
                R.bad("track:all", "all files are visited: %s" % pp(a[0][0])[:80], where)
            em = [x for x in flat_events(a[1]) if x[0] == "op" and x[1] == "emit"]
            if em:
                n += 1
                track(C, em, el, "file", where)
                continue
            own = [c for c in a[0] if c[0] == "t" and c[1][0] == "eq" and c[2] is True and set(c[1][1:]) == {el, OWN}]
            R.check(("is", SOURCE, "Source") in a[0] and bool(own), "track:skip", "only inline source has no file: %s" % [pp(c)[:60] for c in a[0]], where)
    R.check(n > 0, "track:some", "the code refers to the files used", where)
