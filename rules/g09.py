"""Heritage::new is evaluated for inheritance chains of one to four templates: every template of the chain must append its
own definition of each of its blocks, from the most derived to the root, and the root must be the last one; the chain is
followed along the extends path of each template. Context::new must visit the bodies of every kind of node, register every
block definition it meets unless it is inside a block of the same name (which must be an error), remember the template
named by the only extends tag, and reject a second one and those below the top level. On every path of write_block, a
block must generate definition number zero of its name and super() the definition after the one being generated, with the
nodes, context and number of exactly that entry, and everything else must be an error. impl_template must start with the
root of the chain, and build_template must build the chain whenever the template has blocks or extends another one."""
from genlib import *

BLOCKS = ("fld", ("fld", ("as", ("fld", ("param", "p0"), "heritage"), "Some"), "0"), "blocks")


def run(C):
    R = C.R
    R.floor = 55
    R.section("ancestry", ancestry, C)
    R.section("context", context, C)
    R.section("write", write, C)
    R.section("start", start, C)
    R.section("build", build, C)


# ------------------------------------------------------------------ the chain
def ancestry(C):
    R = C.R
    b = C.body("askama_derive", "heritage::Heritage::new")

    def entry(E, fr, st, a, line):
        return [(st, ("call", "slot", (E.norm(st, a[1]),)))]

    def slot(E, fr, st, a, line):
        return [(st, a[0])]

    def put(name):
        def h(E, fr, st, a, line):
            r = E.derefloc(st, a[0])
            x = E.norm(st, E.read(st, *r)) if r[1] else (r[0][1] if r[0][0] == "H" else E.norm(st, E.read(st, *r)))
            v = E.norm(st, a[-1])
            return [(op(st, name, base_of(x), v, E.norm(st, a[1])), UNIT)]
        return h
    E = C.engine("askama_derive", max_depth=4, vocab={
        "std::collections::HashMap::entry": entry, "std::collections::hash_map::Entry::or_default": slot,
        "std::collections::hash_map::Entry::or_insert": slot, "std::collections::hash_map::Entry::or_insert_with": slot,
        "std::vec::Vec::push": put("append"), "std::vec::Vec::insert": put("at"), "std::collections::HashMap::insert": put("replace")})
    res = C.run(E, b)
    where = b.where()
    for n in (0, 1, 2, 3):
        seqs = []
        for st, rv in res:
            seqs += chain(st, rv, n)
        if not seqs:
            raise Undecided("no path for a chain of %d" % (n + 1))
        for apps, root in seqs:
            R.check(root == ctx(n), "chain:root", "the root of a chain of %d is its last template: %s" % (n + 1, pp(root)[:80]), where)
            R.check(len(apps) == n + 1, "chain:all", "%d templates, definitions of %d of them" % (n + 1, len(apps)), where)
            for i, (key, d) in enumerate(apps[:n + 1]):
                el = ("elem", ("fld", ctx(i), "blocks"))
                R.check(key == ("fld", el, "0"), "chain:key", "definitions are collected by the name of the block: %s" % pp(key)[-60:], where)
                R.check(is_agg(d) and fields(d).get("0") == ctx(i), "chain:context", "definition %d belongs to template %d: %s" % (i, i, pp(d)[:100]), where)
                R.check(is_agg(d) and fields(d).get("1") == ("fld", el, "1"), "chain:definition", "definition %d is the one of template %d: %s" % (i, i, pp(d)[-100:]), where)


def ctx(i):
    return ("param", "p0") if i == 0 else ("ctx", i)


def chain(st, rv, n):
    """The definitions appended and the root for a chain of n + 1 templates: [([(key, def)], root)]"""
    ext = {("fld", ctx(i), "extends"): i for i in range(n + 1)}

    def rel(t):
        """Replace the successor of a template by the next one."""
        if not isinstance(t, tuple):
            return t
        t = tuple(rel(x) if isinstance(x, tuple) else x for x in t)
        if t[:1] == ("idx",) and t[1] == ("param", "p1") or t[:1] == ("fld",) and t[2] == "0" and t[1][0] == "as" and t[1][2] == "Some" and t[1][1][0] == "call" and t[1][1][1].endswith("HashMap::get") and t[1][1][2][0] == ("param", "p1"):
            k = t[2] if t[0] == "idx" else t[1][1][2][1]
            if k[0] == "fld" and k[1][0] == "as" and k[1][1] in ext and ext[k[1][1]] < n:
                return ctx(ext[k[1][1]] + 1)
        return t

    def feas(conds):
        for c in conds:
            if c[0] in ("is", "not"):
                x = rel(c[1])
                if x in ext:
                    v = "Some" if ext[x] < n else "None"
                    if (c[0] == "is") != (v == c[2] if c[0] == "is" else v in c[2]):
                        return False
                    continue
                if x[0] == "call" and x[1].endswith("HashMap::get") and x[2][0] == ("param", "p1"):
                    if c[0] == "is" and c[2] == "None":
                        return False
                    continue
                raise Undecided("condition on the chain: %s" % pp(c)[:120])
            elif c[0] == "t":
                raise Undecided("condition on the chain: %s" % pp(c)[:120])
            elif c[0] == "iter" and len(c) > 3 and any("rev" not in str(m) for m in c[3]):
                raise Undecided("iteration over the blocks: %s" % pp(c)[:120])
        return True

    def go(evs, m):
        """[(definitions, loop variables)]"""
        outs = [([], m)]
        for e in evs:
            nx = []
            for apps, m in outs:
                e1 = rel(subst(e, m)) if m else rel(e)
                if e1[0] == "op":
                    nx.append((apps + [(e1[1], definition(e1[1:]))], m))
                elif e1[0] == "loop":
                    blocks = [c for a in e1[2] for c in a[0] if c[0] == "iter" and c[2] == "next"]
                    if blocks:
                        # over the blocks of one template: once
                        for a in e1[2]:
                            mm = dict(e1[3])
                            if not feas(tuple(subst(c, mm) for c in a[0])):
                                continue
                            for ap2, _ in go([subst(x, mm) for x in a[1]], {}):
                                nx.append((apps + ap2, {**m, **{lv: subst(v, mm) for lv, v in a[3]}}))
                        continue
                    runs, done = [([], dict(e1[3]))], []
                    for _ in range(n + 2):
                        r2 = []
                        for ap, lm in runs:
                            done.append((ap, lm))
                            for a in e1[2]:
                                if not feas(tuple(rel(subst(c, lm)) for c in a[0])):
                                    continue
                                for ap2, lm2 in go([subst(x, lm) for x in a[1]], {}):
                                    r2.append((ap + ap2, {lv: rel(subst(subst(v, lm), lm2)) for lv, v in a[3]}))
                        runs = r2
                    for ap, lm in done:
                        nx.append((apps + ap, {**m, **lm}))
                else:
                    nx.append((apps, m))
            outs = nx
        return outs
    r = []
    h = fields(rv) if is_agg(rv) else {}
    if "root" not in h:
        raise Undecided("result of Heritage::new: %s" % pp(rv)[:80])
    for apps, m in go(st.ev, {}):
        conds = tuple(rel(subst(c, m)) for c in st.conds)
        if not feas(tuple(c for c in conds if c[0] != "iter")):
            continue
        x = rel(subst(h["root"], m))
        first = []
        bl = base_of(h["blocks"])
        if bl[0] == "call" and bl[1].endswith("collect") or bl[0] == "collect":
            first = [collected(bl)]
        elif bl[0] == "lv":
            bl = base_of(m.get(bl, bl))
            if bl[0] == "collect":
                first = [collected(bl)]
        for how, d in apps:
            first = [d] + first if how == "at" else first + [d]
        r.append((first, x))
    return r


def definition(o):
    """(key, definition) of an append operation."""
    if not (o[0] == "append" or o[0] == "at" and o[3] == ("int", 0)) or o[1][0] != "call" or o[1][1] != "slot":
        raise Undecided("definitions are stored otherwise: %s" % pp(o)[:120])
    return (o[1][2][0], o[2])


def collected(t):
    """(key, definition) of the pairs of a collected map with one definition each."""
    tups = [x for x in walk(t) if isinstance(x, tuple) and is_agg(x) and x[1] == "tuple" and len(fields(x)) == 2]
    outer = [x for x in tups if any(y is not x and mentions(fields(x)["1"], y) for y in tups)]
    if len(outer) != 1:
        raise Undecided("definitions of the first template: %s" % pp(t)[:120])
    o = fields(outer[0])
    arrs = [x for x in walk(o["1"]) if isinstance(x, tuple) and x[:1] in (("arr",), ("vec",)) and len(x) == 2 and len(x[1])]
    if len(arrs) != 1 or len(arrs[0][1]) != 1:
        raise Undecided("definitions of the first template: %s" % pp(o["1"])[:120])
    return (o["0"], arrs[0][1][0])


# ------------------------------------------------------------------ registration
def context(C):
    R = C.R
    W = Walk(C, "heritage::Context::new")
    where = W.b.where()
    okv = [fields(rv)["0"] for _, _, rv, _ in W.paths if is_agg(rv, "Ok")]
    if not okv:
        raise Undecided("no result of Context::new")
    for kind in body_fields(C):
        alts = W.kind(C, kind)
        if not R.check(bool(alts), "visit:" + kind, "%s nodes are accepted" % kind, where):
            continue
        if kind == "Macro":
            continue
        for k, no, conds, evs, upd, el, src, outer in alts:
            seqs = bodies_pushed(evs, el, kind)
            for want in body_terms(C, el, kind):
                for pushed in seqs:
                    R.check(want in [x for x, _ in pushed], "visit:%s:%s" % (kind, want[2]), "the body %s of %s is searched for blocks" % (pp(want)[-40:], kind), where)
            if kind == "BlockDef":
                continue
            for pushed in seqs:
                for x, tag in pushed:
                    if tag is not None:
                        R.check(tag == names_of(src), "outer:" + kind, "the names of the blocks around are passed on: %s" % pp(tag)[-80:], where)
    nested(C, W, where)
    extends(C, W, okv, where)


def bodies_pushed(evs, el, kind):
    """[[(nodes, names)]] pushed to the work list; loops over the parts of the node count for every element."""
    out = []
    for e in flat_events(evs):
        if e[0] == "op" and e[1] == "append":
            v = e[3]
            if is_agg(v) and v[1] == "tuple":
                out.append((fields(v)["0"], fields(v).get("1")))
            else:
                out.append((v, None))
    return [out]


def names_of(src):
    """The names that came with the list of nodes."""
    if src[0] == "fld" and src[2] == "0":
        return ("fld", src[1], "1")
    return None


def nested(C, W, where):
    R = C.R
    name = None
    n = 0
    for k, no, conds, evs, upd, el, src, outer in W.kind(C, "BlockDef"):
        d = ("fld", ("as", el, "BlockDef"), "0")
        nm = ("fld", d, "name")
        ins = [e for e in flat_events(evs) if e[0] == "op" and e[1] == "insert"]
        R.check(any(e[3] == nm and e[4] in (d, None) for e in ins), "block:registered", "every block definition is registered under its name: %s" % [pp(e[3])[-30:] for e in ins], where)
        names = names_of(src)
        if names is None:
            raise Undecided("names of the blocks around a block")
        inside = [c for c in conds if c[0] == "t" and c[1][0] in ("call", "any") and mentions(c[1], names) and mentions(c[1], nm)]
        R.check(any(c[2] is False for c in inside), "block:recursive", "a block within a block of its name is rejected", where)
        # the names passed on contain this one
        for e in flat_events(evs):
            if e[0] == "op" and e[1] == "append" and is_agg(e[3]) and fields(e[3]).get("0") == ("fld", d, "nodes"):
                n += 1
                v = fields(e[3])["1"]
                added = any(x[0] == "op" and x[1] == "append" and x[3] == nm for x in flat_events(evs)) or mentions(v, nm)
                R.check(base_of(v) == names or mentions(v, names), "block:names", "the names of the blocks around are kept: %s" % pp(v)[-80:], where)
                R.check(added, "block:own-name", "a block is known to the blocks inside it", where)
    R.check(n > 0, "block:nested", "nested blocks are found", where)


def extends(C, W, okv, where):
    R = C.R
    n = 0
    errs = W.errors("Extends")
    for k, no, conds, evs, upd, el, src, outer in W.kind(C, "Extends"):
        p = ("fld", ("fld", ("as", el, "Extends"), "0"), "path")
        # the flag of the outermost list
        flags = [c for c in conds if c[0] == "t" and c[1][0] == "lv"]
        if not any(c[2] is True for c in flags):
            R.bad("extends:top", "extends is accepted below the top level", where)
            continue
        flag = [c[1] for c in flags if c[2] is True][0]
        for lp, alt in outer:
            for lv, v in lp[3]:
                if lv == flag:
                    R.check(v == TRUE, "extends:top", "the first list of nodes is the top level", where)
            for lv, v in alt[3]:
                if lv == flag:
                    R.check(v == FALSE, "extends:top", "all further lists of nodes are below the top level: %s" % pp(v)[:40], where)
        set_ = [(lv, v) for lv, v in upd if is_agg(v, "Some") and mentions(v, p)]
        if not R.check(len(set_) == 1, "extends:set", "the template extended is remembered: %s" % [pp(v)[:60] for lv, v in upd if v != lv][:3], where):
            continue
        n += 1
        lv = set_[0][0]
        R.check(("is", lv, "None") in conds, "extends:once", "a second extends tag is rejected", where)
        ex = [fields(o).get("extends") for o in okv]
        R.check(all(x is not None and x[0] == "lv" and x[2] == lv[2] for x in ex), "extends:result", "the template extended is part of the result: %s" % [pp(x)[:60] for x in ex], where)
    R.check(n > 0, "extends", "extends tags are accepted at the top level", where)
    R.check(any(any(c[0] == "t" and c[1][0] == "lv" and c[2] is False for c in cs) for cs, _ in errs), "extends:below", "extends below the top level is an error", where)
    for o in okv:
        f = fields(o)
        R.check(f.get("nodes") == ("param", "p2"), "context:nodes", "the context has the nodes of the template: %s" % pp(f.get("nodes"))[:60], where)


# ------------------------------------------------------------------ generation
def write(C):
    R = C.R
    b = C.body("askama_derive", GEN + "write_block")
    where = b.where()
    E = engine(C, max_depth=4)
    NM, SB = ("param", "p3"), ("fld", ("param", "p0"), "super_block")
    name = ("fld", ("as", NM, "Some"), "0")
    prev = ("fld", ("as", SB, "Some"), "0")
    seen = set()
    for st, rv in run_gen(C, E, b, bufs=("p2",)):
        v = {c[1]: c[2] for c in st.conds if c[0] == "is"}
        if NM not in v:
            raise Undecided("path of write_block without a test of the name")
        if not is_agg(rv, "Ok"):
            if not is_agg(rv, "Err"):
                raise Undecided("result of write_block: %s" % pp(rv)[:60])
            continue
        own = v[NM] == "Some"
        seen.add((v[NM], v.get(SB)))
        if not own and not R.check(v.get(SB) == "Some", "super:outside", "super() outside a block is rejected", where):
            continue
        if own and v.get(SB) == "Some":
            same = [c for c in st.conds if c[0] == "t" and c[1][0] == "eq" and set(c[1][1:]) == {name, ("fld", prev, "0")}]
            R.check(any(c[2] is False for c in same), "block:itself", "a block directly within itself is rejected", where)
        hs = [e[1:] for e in flat_events(st.ev) if e[0] == "op" and e[1] == "handle"]
        if not R.check(len(hs) == 1, "body:once", "exactly one definition is generated: %d" % len(hs), where):
            continue
        g, cx, nodes, level = hs[0][2], hs[0][3], hs[0][4], hs[0][5]
        d = base_of(nodes)
        while d[0] in ("fld",) and not (d[2] == "0" and d[1][0] == "as"):
            d = d[1]
        # an entry of the list of definitions of a block
        if d[0] != "fld" or d[1][0] != "as" or not (is_get(d[1][1]) or is_end(d[1][1])):
            raise Undecided("definition of a block: %s" % pp(nodes)[:120])
        lst, idx = d[1][1][2] if is_get(d[1][1]) else (d[1][1][2][0], ("int", 0) if d[1][1][1].endswith("first") else ("str", "last"))
        if lst[0] != "fld" or lst[1][0] != "as" or not is_get(lst[1][1]) or lst[1][1][2][0] != BLOCKS:
            raise Undecided("definitions of a block: %s" % pp(lst)[:120])
        key = lst[1][1][2][1]
        wk, wi = (name, ("int", 0)) if own else (("fld", prev, "0"), None)
        t = "block" if own else "super"
        R.check(key == wk, t + ":name", "definitions of the %s: %s" % ("block" if own else "current block", pp(key)[:60]), where)
        if own:
            R.check(idx == wi or idx == ("int", 0), t + ":number", "the most derived definition is generated: %s" % pp(idx), where)
        else:
            try:
                if idx[0] == "str":
                    raise TypeError
                vals = [ev(idx, {("fld", prev, "1"): k}) for k in (0, 1, 5)]
            except TypeError:
                vals = None
            except NoVal:
                raise Undecided("number of the definition: %s" % pp(idx)[:80])
            R.check(vals == [1, 2, 6], t + ":number", "super() generates the next definition: %s" % pp(idx)[:80], where)
        R.check(nodes == ("fld", ("fld", d, "1"), "nodes"), t + ":nodes", "the nodes of this definition: %s" % pp(nodes)[-40:], where)
        R.check(base_of(cx) == ("fld", d, "0"), t + ":context", "the context of this definition: %s" % pp(base_of(cx))[-60:], where)
        R.check(is_agg(level, "Block"), t + ":level", "generated as a block", where)
        sb = fields(g).get("super_block") if is_agg(g) else None
        good = is_agg(sb, "Some") and is_agg(fields(sb)["0"]) and fields(fields(sb)["0"]).get("0") == key and fields(fields(sb)["0"]).get("1") == idx
        R.check(good, t + ":current", "super() inside refers to this definition: %s" % pp(sb)[:100], where)
        her = fields(g).get("heritage") if is_agg(g) else None
        R.check(her is not None and her in (("fld", ("param", "p0"), "heritage"), ("agg", her[1], "Some", (("0", ("fld", ("as", ("fld", ("param", "p0"), "heritage"), "Some"), "0")),)) if is_agg(her) else None),
                t + ":heritage", "the blocks inside use the same chain: %s" % pp(her)[:60] if her else "no chain", where)
    for x in (("Some", "None"), ("Some", "Some"), ("None", "Some")):
        R.check(x in seen, "forms:%s-%s" % x, "blocks, nested blocks and super() can be generated", where)


def is_end(t):
    return t[0] == "call" and t[1].split("::")[-1] in ("first", "last") and len(t[2]) == 1


def is_get(t):
    return t[0] == "call" and (t[1].endswith("::get") or t[1] == "get") and len(t[2]) == 2


# ------------------------------------------------------------------ entry
def start(C):
    R = C.R
    b, ps = template_paths(C)
    where = b.where()
    H, B = ("fld", ("param", "p0"), "heritage"), ("fld", ("fld", ("param", "p0"), "input"), "block")
    her = ("fld", ("as", H, "Some"), "0")
    n = 0
    for conds, evs, rv in ps:
        v = {c[1]: c[2] for c in conds if c[0] == "is"}
        if not is_agg(rv, "Ok") or v.get(B) == "Some":
            continue
        hs = [e[1:] for e in flat_events(evs) if e[0] == "op" and e[1] == "handle"]
        if not R.check(len(hs) == 1, "start:once", "the template is generated once: %d" % len(hs), where):
            continue
        n += 1
        if H not in v:
            raise Undecided("start does not depend on the chain")
        c = ("fld", her, "root") if v[H] == "Some" else ("param", "p1")
        R.check(hs[0][3] == c and hs[0][4] == ("fld", c, "nodes"), "start:root:" + v[H], "the %s is generated: %s" % ("root of the chain" if v[H] == "Some" else "template", pp(hs[0][4])[:80]), where)
    R.check(n >= 2, "start", "templates with and without a chain", where)


def build(C):
    R = C.R
    b, ps = build_paths(C)
    where = b.where()
    n = 0
    for conds, evs, rv in ps:
        gen = [e[1:] for e in flat_events(evs) if e[0] == "op" and e[1] == "generate"]
        if not is_agg(rv, "Ok") or not gen:
            continue
        for g in gen:
            gt = g[1]
            if gt[0] != "call" or gt[1] != "generator":
                raise Undecided("generator: %s" % pp(gt)[:80])
            own, h = g[2], gt[2][2]
            if not is_agg(h):
                raise Undecided("chain of the generator: %s" % pp(h)[:80])
            n += 1
            has = is_agg(h, "Some")
            cs = [c for c in conds if mentions(c, ("fld", own, "blocks")) or mentions(c, ("fld", own, "extends"))]
            for blocks in (True, False):
                for ext in ("Some", "None"):
                    bt = ("fld", own, "blocks")
                    env = {("empty", bt): not blocks, ("lenof", bt): 1 if blocks else 0}
                    env.update({x: not blocks if x[1].endswith("is_empty") else int(blocks) for c in cs for x in walk(c)
                                if isinstance(x, tuple) and x[:1] == ("call",) and x[2] == (bt,) and x[1].split("::")[-1] in ("is_empty", "len")})
                    feas = True
                    for c in cs:
                        if c[0] in ("is", "not") and c[1] == ("fld", own, "extends"):
                            if (c[0] == "is") != ((ext == c[2]) if c[0] == "is" else (ext in c[2])):
                                feas = False
                        elif c[0] == "t":
                            r = evcond(c, env)
                            if r is None:
                                raise Undecided("condition on the chain: %s" % pp(c)[:120])
                            feas = feas and r
                    if feas and (blocks or ext == "Some"):
                        R.check(has, "build:chain", "the chain is used if there are blocks (%s) or a parent (%s)" % (blocks, ext), where)
            if has:
                hv = fields(h)["0"]
                R.check(hv[0] == "call" and hv[1] == "heritage" and hv[2][0] == own, "build:from", "the chain starts at this template: %s" % pp(hv)[:80], where)
                R.check(hv[0] == "call" and hv[1] == "heritage" and hv[2][1] == gt[2][1], "build:contexts", "chain and generator use the same templates", where)
    R.check(n > 1, "build", "templates with and without a chain are generated", where)
