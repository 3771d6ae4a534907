"""Generator::new must discard output exactly if a block is named. WritableBuffer::push, Buffer::write and Buffer::writeln
must append nothing while discarding and append otherwise. On every path of write_block, evaluated for all combinations of
the block being the named one and output being discarded, the definition must be generated with discarding switched off
exactly if it was off before or the block is the named one, everything the block leaves pending must be written in that
state, and both buffers must be back in the previous state at the end. Every other node must hand its state on to the
bodies and generators it uses, and no other function may change it. With a named block, impl_template must generate
exactly the most derived definition of that block, whatever the template around it, and build_template or impl_template
must reject a name without definition; without a name, the whole template is generated with nothing discarded."""
from g09 import *

INP = ("fld", ("fld", ("param", "p0"), "input"), "block")
NM = ("param", "p3")
DISC = ("fld", ("fld", ("param", "p0"), "buf_writable"), "discard")


def run(C):
    R = C.R
    R.floor = 30
    R.section("new", new, C)
    R.section("sinks", sinks, C)
    R.section("switch", switch, C)
    R.section("pass", passon, C)
    R.section("start", entry, C)
    R.section("known", known, C)


def new(C):
    R = C.R
    b = C.body("askama_derive", GEN + "new")
    E = C.engine("askama_derive", max_depth=3)
    E.default_value = default_value
    res = C.run(E, b)
    blk = ("fld", ("param", "p0"), "block")
    for v in ("Some", "None"):
        for st, rv in res:
            if any(c[0] == "is" and c[1] == blk and c[2] != v for c in st.conds):
                continue
            if not is_agg(rv):
                raise Undecided("result of Generator::new")
            w = fields(rv)["buf_writable"]
            d = fields(w).get("discard") if is_agg(w) else ("fld", w, "discard")
            vals = {truth(d, {("isv", blk, "Some"): v == "Some", ("isv", blk, "None"): v == "None", ("isv", ("param", "p2"), "Some"): h, ("isv", ("param", "p2"), "None"): not h}) for h in (True, False)}
            val = vals.pop() if len(vals) == 1 else None
            R.check(val == (v == "Some"), "new:" + v, "output is discarded at first exactly if a block is named: %s" % pp(d)[:60], b.where())
            if is_agg(w):
                R.check(fields(w)["buf"] == EMPTY, "new:empty", "nothing is pending at first", b.where())


def truth(t, env):
    try:
        return bool(ev(t, env))
    except NoVal:
        raise Undecided("state of a buffer: %s" % pp(t)[:80])


def sinks(C):
    R = C.R
    for fn in ("WritableBuffer::push", "Buffer::write", "Buffer::writeln"):
        b = C.body("askama_derive", G + fn)
        E = C.engine("askama_derive", max_depth=3)
        d = ("fld", ("param", "p0"), "discard")
        root = ("H", ("param", "p0"))
        some_ = False
        for st, rv in C.run(E, b):
            v = st.mem.get(root)
            changed = v is not None and E.norm(st, E.proj(v, ("f", "buf"))) != ("fld", ("param", "p0"), "buf")
            states = [x for x in (True, False) if not any(evcond(c, {d: x}) is False for c in st.conds if c[0] == "t")]
            if True in states:
                R.check(not changed, fn + ":discard", "nothing is appended while output is discarded", b.where())
                R.check(not is_agg(rv, "Err"), fn + ":error", "discarding is no error", b.where())
            if states == [False]:
                some_ = some_ or changed
                if fn != "Buffer::writeln":
                    R.check(changed, fn + ":append", "output is appended if it is not discarded", b.where())
            nd = E.norm(st, E.proj(v, ("f", "discard"))) if v is not None else d
            R.check(nd == d, fn + ":state", "appending does not change the state", b.where())
        R.check(some_, fn + ":works", "output is appended", b.where())
    b = C.body("askama_derive", G + "Buffer::new")
    for st, rv in C.run(C.engine("askama_derive", max_depth=2), b):
        R.check(is_agg(rv) and fields(rv).get("discard") == FALSE, "Buffer::new", "a new buffer does not discard", b.where())


def switch(C):
    R = C.R
    b = C.body("askama_derive", GEN + "write_block")
    where = b.where()
    E = engine(C, max_depth=4)
    BD = ("fld", ("param", "p2"), "discard")
    n = 0
    for st, rv in run_gen(C, E, b, bufs=("p2",)):
        if not is_agg(rv, "Ok"):
            continue
        named = [c[2] for c in st.conds if c[0] == "is" and c[1] == NM]
        if len(named) != 1:
            raise Undecided("name of the block")
        evs = list(flat_events(st.ev))
        hi = [i for i, e in enumerate(evs) if e[0] == "op" and e[1] == "handle"]
        if len(hi) != 1:
            raise Undecided("%d bodies in a block" % len(hi))
        h = evs[hi[0]][1:]
        for same, d, inp in [(x, y, z) for x in (True, False) for y in (True, False) for z in ("Some", "None")]:
            # nothing is discarded without a named block
            if not (d and inp == "None" or same and inp != named[0] or not same and inp == "None" == named[0]):
                env = {("isv", INP, "Some"): inp == "Some", ("isv", INP, "None"): inp == "None",("eq", INP, NM): same, ("eq", NM, INP): same, DISC: d, BD: d}
                blk, nm = ("fld", ("as", INP, "Some"), "0"), ("fld", ("as", NM, "Some"), "0")
                if named[0] == "Some":
                    env.update({("eq", blk, nm): same, ("eq", nm, blk): same})
                    env.update({("eq", INP, ("agg", k, "Some", (("0", nm),))): same for k in ("std::option::Option", "Option")})
                feas = True
                for c in st.conds:
                    if c[0] == "t" and (mentions(c, INP) or mentions(c, DISC) or mentions(c, BD)):
                        r = evcond(c, env)
                        if r is None:
                            raise Undecided("condition on the state: %s" % pp(c)[:100])
                        feas = feas and r
                    if c[0] in ("is", "not") and c[1] == INP:
                        feas = feas and (c[2] == inp if c[0] == "is" else inp not in c[2])
                if not feas:
                    continue
                n += 1
                want = d and not same
                t = "%s:%s:%s" % (named[0], "named" if same else "other", "discarding" if d else "output")
                g = fields(h[2])["buf_writable"] if is_agg(h[2]) else None
                if not is_agg(g):
                    raise Undecided("pending output of the block: %s" % pp(g)[:60] if g else "generator of a block")
                got = truth(fields(g)["discard"], env)
                R.check(got == want, "switch:" + t, "the block is %s" % ("discarded" if got else "generated"), where)
                R.check(truth(h[7], env) == want, "switch:code:" + t, "the code of the block is %s" % ("discarded" if truth(h[7], env) else "generated"), where)
                fl = [(i, e[1:]) for i, e in enumerate(evs) if e[0] == "op" and e[1] == "flush"]
                after = [f for i, f in fl if i > hi[0]]
                before = [f for i, f in fl if i < hi[0]]
                if want != d:
                    R.check(any(f[1] == h[1] and f[2] != EMPTY and truth(f[4], env) == want for f in after), "switch:rest:" + t, "what the block leaves pending is written before the state changes back", where)
                R.check(bool(before), "switch:before:" + t, "what is pending before the block is written before it", where)
                for f in before:
                    R.check(truth(f[4], env) == d, "switch:before:" + t, "what is pending before the block is written in the state before", where)
                m = st.mem[("H", ("param", "p0"))]
                e1 = E.norm(st, E.proj(E.proj(m, ("f", "buf_writable")), ("f", "discard")))
                e2 = E.norm(st, E.proj(st.mem[("H", ("param", "p2"))], ("f", "discard")))
                R.check(truth(e1, env) == d, "restore:" + t, "after the block output is %s again: %s" % ("discarded" if d else "generated", pp(e1)[:60]), where)
                R.check(truth(e2, env) == d, "restore:code:" + t, "after the block code is %s again: %s" % ("discarded" if d else "generated", pp(e2)[:60]), where)
    R.check(n >= 6, "switch", "combinations of block and state: %d" % n, where)


def passon(C):
    """All nodes but blocks."""
    R = C.R
    sc = scenarios(C)
    b, top, src = C._top
    D, BD = DISC, ("fld", ("param", "p3"), "discard")
    for kind, seqs in sorted(sc.items()):
        bad = set()
        for conds, ops in seqs:
            if kind == "BlockDef" or kind == "Call" and any(o[0] == "handle" and is_agg(o[5], "Block") for o in ops):
                continue
            for o in ops:
                if o[0] != "handle":
                    continue
                g = fields(o[2]).get("buf_writable") if is_agg(o[2]) else None
                if g is None:
                    raise Undecided("generator of a body")
                d = fields(g)["discard"] if is_agg(g) else ("fld", g, "discard")
                if d != D:
                    bad.add("body with the state %s" % pp(d)[:60])
                if o[7] not in (BD, FALSE) or o[7] == FALSE and o[6] == "p3":
                    bad.add("code with the state %s" % pp(o[7])[:60])
        R.check(not bad, "pass:" + kind, "%s hands the state on: %s" % (kind, sorted(bad)[:2]), b.where())
    for a in top[2]:
        for lv, v in a[3]:
            p = pp(lv)
            if "discard" in p and v != lv:
                R.undecided("pass:change", "a node may change the state: %s" % pp(v)[:80], b.where())


def entry(C):
    R = C.R
    b, ps = template_paths(C)
    where = b.where()
    H = ("fld", ("param", "p0"), "heritage")
    name = ("fld", ("as", INP, "Some"), "0")
    n = 0
    for conds, evs, rv in ps:
        v = {c[1]: c[2] for c in conds if c[0] == "is"}
        if INP not in v:
            raise Undecided("start does not depend on the block")
        evl = [e[1:] for e in flat_events(evs) if e[0] == "op"]
        hs = [o for o in evl if o[0] == "handle"]
        wb = [o for o in evl if o[0] == "write_block"]
        if v[INP] == "None":
            R.check(not wb or not is_agg(rv, "Ok"), "start:all", "without a name the whole template is generated", where)
            R.check(bool(hs) or not is_agg(rv, "Ok"), "start:all", "without a name the whole template is generated", where)
            continue
        if not is_agg(rv, "Ok"):
            continue
        R.check(not hs, "start:only", "with a name, only the block is generated: %s" % [pp(o[4])[:60] for o in hs], where)
        if not R.check(len(wb) == 1, "start:block", "the block is generated once: %d" % len(wb), where):
            continue
        n += 1
        o = wb[0]
        R.check(v.get(H) == "Some", "start:exists", "a block needs definitions", where)
        R.check(is_agg(o[3], "Some") and fields(o[3])["0"] == name or o[3] == INP, "start:name", "the named block is generated: %s" % pp(o[3])[:60], where)
        cx = base_of(o[2])
        ok_ = cx[0] == "fld" and cx[2] == "0" and definition_list(cx[1], BLOCKS, name)
        R.check(ok_, "start:context", "the block sees the definitions of the template that defines it: %s" % pp(cx)[:100], where)
        R.check(all(is_agg(x, "None") for _, x in o[4][3]) if is_agg(o[4]) else False, "start:ws", "no white space control from around the block: %s" % pp(o[4])[:60], where)
        inherit(C, evs, o[2], where)
    R.check(n > 0, "start", "a named block can be generated", where)


def definition_list(t, blocks, name):
    """Is t the first entry of the definitions of the block?"""
    if t[0] != "fld" or t[2] != "0" or t[1][0] != "as" or t[1][2] != "Some":
        return False
    g = t[1][1]
    if is_end(g) and g[1].endswith("first"):
        lst = g[2][0]
    elif is_get(g) and g[2][1] == ("int", 0):
        lst = g[2][0]
    else:
        return False
    return lst[0] == "fld" and lst[1][0] == "as" and is_get(lst[1][1]) and lst[1][1][2] == (blocks, name)


def inherit(C, evs, cx, where):
    """The macros and imports of the ancestors are added: the loop along the chain starts with the parent of the definition
    and goes on with the parent of that."""
    R = C.R
    found = False
    for e in evs:
        if e[0] != "loop":
            continue
        exts = {lv: v for lv, v in e[3] if "extends" in pp(lv)}
        if not exts:
            continue
        for lv, v in exts.items():
            R.check(v == ("fld", base_of(cx), "extends"), "inherit:from", "the ancestors of the template with the definition: %s" % pp(v)[-60:], where)
            for a in e[2]:
                nxt = dict(a[3]).get(lv)
                ok_ = nxt is not None and nxt[0] == "fld" and nxt[2] == "extends" and nxt[1][0] == "idx" and mentions(nxt[1][2], lv)
                R.check(ok_, "inherit:next", "followed by its own parent: %s" % (pp(nxt)[-60:] if nxt else ""), where)
                inner = [x for x in a[1] if x[0] == "loop"]
                srcs = [loop_src(x) for x in inner]
                for f in ("macros", "imports"):
                    R.check(any(s[0] == "fld" and s[2] == f for s in srcs) or any(c[0] == "iter" and c[1][0] == "fld" and c[1][2] == f for c in a[0]), "inherit:" + f, "the %s of the ancestors can be used" % f, where)
                found = True
    if not found:
        raise Undecided("ancestors of the template with the block")


def known(C):
    """A name without definition is an error."""
    R = C.R
    b, ps = template_paths(C)
    H = ("fld", ("param", "p0"), "heritage")
    n = 0
    for conds, evs, rv in ps:
        v = {c[1]: c[2] for c in conds if c[0] == "is"}
        if v.get(INP) == "Some":
            gone = v.get(H) == "None" or any(c[0] == "is" and c[2] == "None" and (is_get(c[1]) or is_end(c[1])) for c in conds)
            if gone:
                n += 1
                R.check(is_agg(rv, "Err"), "known:error", "a block without definition is an error", b.where())
    R.check(n > 0, "known", "a block without definition is noticed", b.where())
    b, ps = build_paths(C)
    for conds, evs, rv in ps:
        for e in flat_events(evs):
            if e[0] == "op" and e[1] == "generate" and e[2][0] == "call" and e[2][1] == "generator":
                h = e[2][2][2]
                R.check(is_agg(h), "known:chain", "the generator gets the definitions", b.where())
