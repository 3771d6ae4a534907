"""Every loop of the functions that resolve inheritance is given a measure. A worklist of files may only receive a file that a
set was found not to contain and that is added to the set; a worklist of bodies only a body strictly inside the one taken off
it; every other loop runs over a fixed list, follows the chain of parents found so far, or follows the template extended by the
current one. An edge from a template to the one it extends is accepted only after following the parents of the latter to the
end without meeting the former; otherwise the result is the error that lists the edges. The generator counts the nesting of
Generator::handle, gives up beyond a constant limit, and has no recursion over nodes that does not go through handle."""
from conflib import *

FIND = "input::TemplateInput::find_used_templates"
CYCLE = "input::cyclic_graph_error"
PUSHES = {"std::vec::Vec::push": 1, "std::collections::VecDeque::push_back": 1, "std::collections::VecDeque::push_front": 1, "std::vec::Vec::insert": 2, "std::vec::Vec::extend": 1, "std::iter::Extend::extend": 1,
          "std::vec::Vec::append": 1, "std::vec::Vec::extend_from_slice": 1}
POPS = ("pop", "pop_front", "pop_back", "remove", "swap_remove")
DROPS = ("remove", "clear", "retain", "drain", "remove_entry", "take")


def run(C):
    R = C.R
    R.floor = 40
    R.section("files", files, C)
    R.section("context", context, C)
    R.section("error", error, C)
    R.section("order", order, C)
    R.section("ancestors", ancestors, C)
    R.section("depth", depth, C)
    R.section("recursion", recursion, C)


def note_at(name, i):
    """Record the target and the argument of an operation on a list, its effect is modelled as usual."""
    def h(E, fr, st, a, line):
        if a[0][0] == "ref":
            st.ev += (("op", name, loc(E.derefloc(st, a[0])), E.norm(st, a[i]) if i < len(a) else UNIT),)
        return NotImplemented
    return h


def vocab(C):
    V = {"config::Config::find_template": pure("find"), "config::get_template_source": pure("read"), CYCLE: pure("cyclic"), "parser::Parsed::new": pure("parse"),
         "askama_parser::Parsed::new": pure("parse")}
    for n in INSERTS:
        V[n] = note("insert")
    for n, i in PUSHES.items():
        V[n] = note_at("push", i)
    for t in ("std::collections::HashMap", "std::collections::HashSet", "std::collections::BTreeMap"):
        for d in DROPS:
            V[t + "::" + d] = note_at("drop", 1)
    V["std::collections::HashSet::insert"] = note_at("add", 1)
    return V


def alternatives(evs, conds, ctx=()):
    """(loops around, conds of the alternative with those around it, its own events, its loop) for every loop alternative."""
    for e in evs:
        if e[0] == "loop":
            for a in e[2]:
                yield (ctx + ((e, a),), conds + a[0], a[1], e)
                yield from alternatives(a[1], conds + a[0], ctx + ((e, a),))


def own_ops(evs):
    return [e for e in evs if e[0] == "op"]


def popped(conds):
    """Lists an element is taken off on this path: {list term: element}"""
    out = {}
    for c in conds:
        if c[0] == "is" and c[2] == "Some" and c[1][0] == "call" and c[1][1].split("::")[-1] in POPS and c[1][2]:
            out[c[1][2][0]] = someof(c[1])
    return out


def absent(conds, x):
    """Sets that are known not to contain x."""
    out = []
    for c in conds:
        if c[0] == "t" and c[1][0] == "call" and len(c[1][2]) >= 2 and c[1][2][1] == x:
            n = c[1][1].split("::")[-1]
            if n in ("contains_key", "contains") and not c[2] or n == "insert" and c[2]:
                out.append(c[1][2][0])
        if c[0] == "is" and c[1][0] == "call" and len(c[1][2]) >= 2 and c[1][2][1] == x:
            n = c[1][1].split("::")[-1]
            if n in ("get", "get_mut", "get_key_value") and c[2] == "None" or n == "entry" and c[2] == "Vacant":
                out.append(c[1][2][0])
    return out


def root_of(t):
    """The variable behind the states of a list or map."""
    while t[0] in ("mut", "upd"):
        t = t[1]
    return t


def same_var(l, t):
    """Is t a state of the variable at location l (a printed location)?"""
    r = root_of(t)
    return l == pp(r) or r[0] == "lv" and l == "L%s_%s" % (r[1][1], r[2]) or r[0] == "lv" and str(r[2]) == l.split("_")[-1] or r[0] == "param" and l == r[1]


def inside(x, item):
    """Is x a part of item, one level down at least?"""
    return x != item and any(y == item for y in walk(x))


def loops_of(evs):
    for e in evs:
        if e[0] == "loop":
            yield e
            for a in e[2]:
                yield from loops_of(a[1])


def iterates(e):
    """Does the loop run over a list, a string or a parser's input that it does not change?"""
    return all(any(c[0] == "iter" for c in a[0]) and any(c[0] == "iter" and c[2] in ("next",) for c in a[0]) for a in e[2])


def files(C):
    R = C.R
    b = C.body("askama_derive", FIND)
    where = b.where()
    E = C.engine("askama_derive", max_depth=4, vocab=vocab(C))
    res = [(st.conds, st.ev, E.norm(st, rv)) for st, rv in C.run(E, b)]
    seen = set()
    acc = set()
    npush = 0
    for conds, evs, rv in res:
        if is_agg(rv, "Err") or rv[0] == "call" and rv[1] == "cyclic":
            continue
        for ops_ctx, cs, es, loop in alternatives(evs, conds):
            key = repr((loop[1], cs, es))
            if key in seen:
                continue
            seen.add(key)
            worklists = {}
            for l, a in ops_ctx:
                worklists.update(popped(a[0]))
            for o in own_ops(es):
                if o[1] == "drop":
                    R.bad("files:drop", "%s is removed from a collection while resolving" % pp(o[3])[:60], where)
                if o[1] != "push":
                    continue
                val = o[3]
                if is_agg(val) and val[1] == "tuple":
                    fs = [v for _, v in val[3]]
                    file = [v for v in fs if v[0] == "fld" and v[1][0] == "as" and v[1][1][0] == "call" and v[1][1][1] == "find"]
                    if file and any(v == okof(("call", "read", (file[0],))) or v[0] == "fld" and v[1][0] == "as" and v[1][1][:2] == ("call", "read") for v in fs):
                        npush += 1
                        f = file[0]
                        sets = absent(cs, f)
                        if not R.check(bool(sets), "files:once:" + kind_of(cs), "%s is queued only if it was not loaded yet" % pp(f)[:60], where):
                            continue
                        adds = [x for x in own_ops(es) if x[1] in ("insert", "add") and x[3] == f]
                        # the set may also get the file when it is taken off the list
                        late = any(x[1] in ("insert", "add") and x[3] in [("fld", y, i) for y in worklists.values() for i in ("0", "1", "2")] for l, a in ops_ctx for x in own_ops(a[1]))
                        R.check(bool(adds) or late, "files:mark:" + kind_of(cs), "a file that is queued is marked as loaded", where)
                        continue
                    if len(fs) == 2 and file and fs[1] == file[0]:
                        k = repr((cs, o))
                        if k not in acc:
                            acc.add(k)
                            edge(C, fs[0], fs[1], cs, es, loop, ops_ctx, where)
                        continue
                # bodies
                items = list(worklists.values())
                if val in items:
                    R.bad("files:body:again", "a body is queued again when it is taken off the list", where)
                    continue
                if not any(inside(val, i) for i in items):
                    if any(isinstance(x, tuple) and x[:1] == ("call",) and x[1] == "parse" for x in walk(val)) and not any(l[1] == loop[1] for l, a in ops_ctx[1:]):
                        continue
                    raise Undecided("queued: %s" % pp(val)[:80])
                R.ok("files:body:" + kind_of(cs))
            measures(C, "files", loop, where)
    if not npush:
        raise Undecided("no file is queued")
    if not acc:
        # how are cycles of extends noticed?
        R.bad("files:edge", "no edge from a template to the one it extends is recorded, so that a cycle is not noticed", where)
    got = any(rv[0] == "call" and rv[1] == "cyclic" or is_agg(rv, "Err") and any(isinstance(x, tuple) and x[:2] == ("call", "cyclic") for x in walk(rv)) for conds, evs, rv in res)
    R.check(got, "files:report", "a cycle is an error", where)


def kind_of(conds):
    for c in conds:
        if c[0] == "is" and c[2] in ("Extends", "Import", "Include"):
            return c[2]
    return "file"


def measures(C, what, loop, where):
    """Why the loop ends."""
    R = C.R
    if any(c[0] == "iter" for a in loop[2] for c in a[0]) and iterates(loop):
        R.ok("%s:loop" % what)
        return
    pops = [popped(a[0]) for a in loop[2]]
    if all(pops):
        R.ok("%s:loop" % what)
        return
    if all(chain_step(loop, a) for a in loop[2]):
        R.ok("%s:loop" % what)
        return
    raise Undecided("loop %s" % [pp(c)[:60] for a in loop[2] for c in a[0]][:3])


def chain_step(loop, a):
    """One step along the parents found so far: the next is the parent of the current one, or there is none."""
    for lv, new in a[3]:
        if lv[0] != "lv":
            continue
        cur = [lv, someof(lv)]
        if is_agg(new, "None"):
            if any(c[0] == "iter" and c[2] == "none-found" for c in a[0]) or any(c[0] == "is" and c[2] == "None" for c in a[0]):
                return lv
        nxt = dict(new[3])["0"] if is_agg(new, "Some") else new
        if nxt[0] == "fld" and nxt[2] == "1" and nxt[1][0] == "elem":
            if any(c[0] == "t" and c[2] and c[1][0] == "eq" and {c[1][1], c[1][2]} in [{x, ("fld", nxt[1], "0")} for x in cur] for c in a[0]):
                return lv
        if nxt[0] == "fld" and nxt[1][0] == "as" and nxt[1][1][0] == "call" and nxt[1][1][1].split("::")[-1] == "get" and nxt[1][1][2][1] in cur:
            return lv
    return None


def edge(C, child, parent, cs, es, loop, ops_ctx, where):
    """An edge is accepted only if following the parents of the extended template does not lead back."""
    R = C.R
    item = [x for l, a in ops_ctx for x in popped(a[0]).values()]
    R.check(any(child in [("fld", y, i) for y in item for i in ("0", "1", "2")] for y in item), "files:edge:child", "the edge starts at the template that has the tag: %s" % pp(child)[:60], where)
    ok_ = False
    bad = []
    met = [c for c in cs if c[0] == "t" and c[2] and c[1][0] == "eq" and child in c[1][1:] and any(isinstance(x, tuple) and x[:1] == ("lv",) for y in c[1][1:] if y != child for x in walk(y))]
    if met:
        R.bad("files:edge:cycle", "an edge is accepted although the parents of the extended template lead back", where)
        return
    other = False
    for e in es:
        if e[0] != "loop" or not e[2]:
            continue
        lvs = {chain_step(e, a) for a in e[2]}
        if None in lvs or len(lvs) != 1:
            # a loop that stops early: those alternatives that go on must all be steps
            continue
        lv = lvs.pop()
        ini = dict(e[3]).get(lv)
        if ini is None:
            continue
        start = dict(ini[3])["0"] if is_agg(ini, "Some") else ini
        cur = (lv, someof(lv))
        tested = all(any(c[0] == "t" and c[2] is False and c[1][0] == "eq" and {c[1][1], c[1][2]} in [{x, child} for x in cur] for c in a[0]) for a in e[2])
        if start == parent and tested:
            ok_ = True
        elif tested:
            other = True
        else:
            bad.append("without comparing with %s" % pp(child)[:50])
    if not ok_ and not bad and (other or any(e[0] == "loop" for e in es)):
        raise Undecided("cycle detection in another form")
    R.check(ok_, "files:edge:cycle", "an edge is accepted only if the parents of the extended template do not lead back%s" % (": " + bad[0] if bad else ""), where)


def context(C):
    """Context::new: bodies inside the one taken off; the extended template is the one that was checked for cycles."""
    R = C.R
    b = C.body("askama_derive", "heritage::Context::new")
    where = b.where()
    E = C.engine("askama_derive", max_depth=4, vocab=vocab(C))
    seen = set()
    n = 0
    for st, rv in C.run(E, b):
        if is_agg(rv, "Err"):
            continue
        for ops_ctx, cs, es, loop in alternatives(st.ev, st.conds):
            key = repr((loop[1], cs, es))
            if key in seen:
                continue
            seen.add(key)
            items = [x for l, a in ops_ctx for x in popped(a[0]).values()]
            for o in own_ops(es):
                if o[1] != "push":
                    continue
                val = o[3]
                if any(x[0] == "lv" or x[0] == "fld" for x in [val]) and is_agg(val):
                    pass
                parts = [v for _, v in val[3]] if is_agg(val) and val[1] == "tuple" else [val]
                nodes = [v for v in parts if any(inside(v, i) for i in items) and v[0] == "fld" and v[2] in ("nodes", "body", "else_nodes")]
                names = [v for v in parts if v[0] == "fld" and v[2] == "name"]
                if names and len(parts) == 1:
                    continue
                if not nodes:
                    raise Undecided("queued: %s" % pp(val)[:80])
                n += 1
                R.ok("context:body")
            measures(C, "context", loop, where)
    if not n:
        raise Undecided("no body is queued")


def error(C):
    R = C.R
    b = C.body("askama_derive", CYCLE)
    E = C.engine("askama_derive", max_depth=3)
    n = 0
    for st, rv in C.run(E, b):
        n += 1
        rv = E.norm(st, rv)
        R.check(is_agg(rv, "Err"), "error:result", "a cycle is an error: %s" % pp(rv)[:60], b.where())
        P = ("param", "p0")
        txt = [x for y in [rv] + list(st.ev) for x in walk(y) if isinstance(x, tuple) and P in x and x[0] not in ("lenof", "len", "empty")]
        R.check(bool(txt), "error:chain", "the error lists the dependencies: %s" % pp(rv)[:80], b.where())
    if not n:
        raise Undecided("no path")


def order(C):
    """Heritage is followed only after all templates were loaded without a cycle."""
    R = C.R
    b, ps = build_paths(C)
    n = 0
    for conds, evs, rv in ps:
        her = any(isinstance(x, tuple) and x[:2] == ("call", "heritage") for c in conds + (rv,) for x in walk(c)) or any(isinstance(x, tuple) and x[:2] == ("call", "heritage") for e in evs for x in walk(e))
        if not her:
            continue
        n += 1
        names = [e[1] for e in evs if e[0] == "op"]
        R.check("find" in names, "order:find", "templates are loaded before inheritance is followed", b.where())
    if not n:
        raise Undecided("inheritance is not followed")


def ancestors(C):
    R = C.R
    b = C.body("askama_derive", "heritage::Heritage::new")
    where = b.where()

    def slot(E, fr, st, a, line):
        return [(st, ("call", "slot", (E.norm(st, a[1]),)))]

    def same(E, fr, st, a, line):
        return [(st, a[0])]

    def skip(E, fr, st, a, line):
        return [(st, UNIT)]
    # what is collected is no matter here
    V = {"std::collections::HashMap::entry": slot, "std::vec::Vec::push": skip, "std::vec::Vec::insert": skip, "std::collections::HashMap::insert": skip}
    for n in ("or_default", "or_insert", "or_insert_with"):
        V["std::collections::hash_map::Entry::" + n] = same
    E = C.engine("askama_derive", max_depth=4, vocab=V)
    n = 0
    for st, rv in C.run(E, b):
        for e in loops_of(st.ev):
            if iterates(e) and e[2]:
                continue
            for a in e[2]:
                n += 1
                step = None
                for lv, new in a[3]:
                    if lv[0] == "lv" and any(y == ("fld", lv, "extends") for y in walk(new)):
                        step = lv, new
                stuck = [c for c in a[0] if c[0] == "is" and c[2] == "Some" and c[1][0] == "fld" and c[1][2] == "extends" and not any(y == c[1] or y == c[1][1] for lv, new in a[3] if new != lv for y in walk(lv))]
                if not step and stuck:
                    R.bad("ancestors:step", "the loop goes on as long as %s, which it does not change" % pp(stuck[0])[:80], where)
                    continue
                if not step:
                    raise Undecided("loop over the ancestors")
                lv, new = step
                exts = [c for c in a[0] if c[0] == "is" and c[1] == ("fld", lv, "extends") and c[2] == "Some"]
                R.check(bool(exts) and not any(y == ("fld", ("param", "p0"), "extends") for y in walk(new)), "ancestors:step", "each step goes from a template to the one it extends: %s" % pp(new)[:80], where)
                look = any(y == ("param", "p1") for y in walk(new))
                R.check(look, "ancestors:lookup", "looked up among the loaded templates: %s" % pp(new)[:80], where)
    if not n:
        raise Undecided("no loop over the ancestors")


def depth(C):
    """Generator::handle counts how deep it is nested and gives up beyond a limit."""
    R = C.R
    hb = C.body("askama_derive", GEN + "handle")
    adt = C.P.crates["askama_derive"].adts["generator::Generator"]
    ints = [f[0] for f in adt["variants"][0][1] if f[1] in ("usize", "u8", "u16", "u32", "u64", "isize", "i32")]

    def h(E, fr, st, a, line):
        st.ev += (("op", "nest") + tuple((f, E.norm(st, rd(E, st, a[0], f))) for f in ints),)
        return v_handle(E, fr, st, a, line)
    E = engine(C, drop=(GEN + "handle",), max_depth=6, extra={GEN + "handle": h})
    res = run_gen(C, E, hb, bufs=("p3",))
    where = hb.where()
    good = {}
    for f in ints:
        F0 = ("fld", ("param", "p0"), f)
        ok_, why = True, ""
        nests = 0
        for st, rv in res:
            lim = [c for c in st.conds if c[0] == "t" and mentions(c, F0)]
            nest = [dict(e[2:])[f] for e in flat_events(st.ev) if e[0] == "op" and e[1] == "nest"]
            nests += len(nest)
            if nest:
                for x in nest:
                    if not deeper(x, F0):
                        ok_, why = False, "a nested call starts at %s" % pp(x)[:60]
                if not any(limits(c, F0) for c in lim):
                    ok_, why = False, "nodes are handled without comparing the depth with a limit"
            if is_agg(rv, "Ok"):
                end = E.norm(st, rd(E, st, ("ref", ("H", ("param", "p0")), ()), f)) if False else dict(E.norm(st, st.mem[("H", ("param", "p0"))])[3])[f]
                if not back(end, F0):
                    ok_, why = False, "the depth is not restored: %s" % pp(end)[:60]
        if nests:
            good[f] = (ok_, why)
    if not good:
        raise Undecided("no counter")
    best = sorted(good.items(), key=lambda x: not x[1][0])
    cand = [(f, w) for f, w in best if w[0]] or [(f, w) for f, w in best if f == "depth"]
    if not cand:
        R.bad("depth:limit", "the nesting of Generator::handle is not limited", where)
        return
    f, (o, why) = cand[0]
    R.check(o, "depth:limit", "the nesting of Generator::handle is limited by %s: %s" % (f, why or "counted and compared"), where)


def value_at(t, F0, v):
    try:
        return ev(t, {F0: v})
    except NoVal:
        return None


def deeper(t, F0):
    return all(value_at(t, F0, v) is not None and value_at(t, F0, v) > v for v in (0, 1, 7, 100))


def back(t, F0):
    return all(value_at(t, F0, v) is not None and value_at(t, F0, v) <= v for v in (0, 1, 7, 100))


def limits(c, F0):
    """Does the condition hold for small and fail for large depths?"""
    r = [evcond(c, {F0: v}) for v in (0, 1, 1 << 20)]
    return r[0] is True and r[2] is False


def recursion(C):
    """Without Generator::handle, no function that reaches the nodes of a template calls itself."""
    R = C.R
    crate = C.P.crates["askama_derive"]
    edges = {}
    names = {b.npath for b in crate.bodies}
    for b in crate.bodies:
        n = b.npath.split("::{closure")[0]
        edges.setdefault(n, set())
        for _, cal, _, _, _ in b.calls():
            if cal[0] == "k" and isinstance(cal[1], dict) and "fn" in cal[1]:
                import mir
                for p in (cal[1].get("res"), cal[1]["fn"]):
                    q = mir.strip_generics(p) if p else None
                    if q in names:
                        edges[n].add(q.split("::{closure")[0])
    H = GEN + "handle"
    if H not in edges:
        raise Missing("askama_derive::" + H)
    R.check(any(H in edges[x] for x in edges), "recursion:handle", "bodies are handled by Generator::handle", "")

    def reach(a, skip):
        out, todo = set(), [a]
        while todo:
            for y in edges.get(todo.pop(), ()):
                if y not in skip and y not in out:
                    out.add(y)
                    todo.append(y)
        return out
    gens = {x for x in edges if x.startswith(GEN)}
    for x in sorted(gens - {H}):
        cyc = x in reach(x, {H})
        nodes = H in reach(x, ())
        if cyc and nodes:
            R.bad("recursion:" + x, "%s calls itself over nodes without going through Generator::handle, where nesting is counted" % x, crate.by[x].where() if x in crate.by else "")
        else:
            R.ok("recursion:" + x)
