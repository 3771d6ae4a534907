"""Shared abstraction of the code generator.

The generator is analysed as a transducer: calls to its primitives (buffer writes, scope operations, whitespace
operations, queueing and flushing of pending output, and the recursive visits) become events of the abstract path, in
order, everything else is inlined. Events: ("op", name, …) with
  emit  buf toks            text appended to a code buffer
  flush gen state buf       pending output written (state of the queue before)
  queue gen item            item queued for output
  handle gen ctx nodes level buf
  visit/filter/attr/args    expression code appended to a buffer (token ("h", (kind, …), ""))
  target gen buf init first target
  ws op gen ws              flush_ws / prepare_ws
  lit gen lit               a literal queued with its whitespace
  push/pop/bind who …       scopes
"""
from rules import *
import mir

G = "generator::"
GEN = G + "Generator::"
NODE = "askama_parser::node::Node"
EMPTY = ("vec", ())
PRIM = {}


def main_buf(E, fr, st, v):
    return E.derefloc(st, v)


def loc(r):
    root, path = r
    n = "L%s_%s" % (root[1], root[2]) if root[0] == "L" else pp(root[1])
    return n + "".join("." + str(e[1]) for e in path)


def op(st, *a):
    s = st.copy()
    s.ev += (("op",) + a,)
    return s


def bufapp(E, st, bufv, toks):
    """Append tokens to a Buffer (event and value)."""
    from models import squeeze
    root, path = E.derefloc(st, bufv)
    v = E.read(st, root, path)
    s = op(st, "emit", loc((root, path)), toks)
    b = E.proj(v, ("f", "buf"))
    b = b[1] if b[0] == "code" else (("h", b, ""),)
    E.write(s, root, path + (("f", "buf"),), ("code", squeeze(tuple(b) + toks)))
    return s


def enqueue(E, s, g, item, *fs):
    q = E.norm(s, rd(E, s, g, *fs))
    wr(E, s, g, ("vec", q[1] + (item,)) if q[0] == "vec" else ("pending", E.fresh()), *fs)


LITERAL = agg("generator::Writable", "Lit", [("0", ("lit",))])


def toks_of(E, st, v):
    from models import toks
    return toks(E.norm(st, v))


def v_write(E, fr, st, a, line):
    return [(bufapp(E, st, a[0], toks_of(E, st, a[1])), UNIT)]


def v_writeln(E, fr, st, a, line):
    return [(bufapp(E, st, a[0], toks_of(E, st, a[1]) + (("s", "\n"),)), ok(UNIT))]


def v_nop(E, fr, st, a, line):
    return [(st, UNIT)]


def v_nopok(E, fr, st, a, line):
    return [(st, ok(UNIT))]


def gen_of(E, st, v):
    return loc(E.derefloc(st, v))


def rd(E, st, v, *fs):
    root, path = E.derefloc(st, v)
    return E.read(st, root, path + tuple(("f", f) for f in fs))


def wr(E, s, v, val, *fs):
    root, path = E.derefloc(s, v)
    E.write(s, root, path + tuple(("f", f) for f in fs), val)


def touch(E, s, g, *fs):
    """A field of the generator changes in a way that is not tracked."""
    for f in fs:
        v = rd(E, s, g, f)
        b = v
        while b[0] == "mut":
            b = b[1]
        wr(E, s, g, ("mut", b, E.fresh()), f)


def snapshot(E, st, g):
    root, path = E.derefloc(st, g)
    v = E.norm(st, E.read(st, root, path))
    return v


def v_flush(E, fr, st, a, line):
    q = E.norm(st, rd(E, st, a[0], "buf_writable", "buf"))
    d = E.norm(st, rd(E, st, a[0], "buf_writable", "discard"))
    s = op(st, "flush", gen_of(E, st, a[0]), q, loc(E.derefloc(st, a[1])), d)
    s = bufapp_silent(E, s, a[1], (("h", ("written", q), ""),))
    wr(E, s, a[0], EMPTY, "buf_writable", "buf")
    return [(s, ok(("call", "size", (("int", E.fresh()),))))]


def bufapp_silent(E, st, bufv, toks):
    s = bufapp(E, st, bufv, toks)
    s.ev = s.ev[:-1]
    return s


def v_handle(E, fr, st, a, line):
    g = snapshot(E, st, a[0])
    s = op(st, "handle", gen_of(E, st, a[0]), g, E.norm(st, a[1]), E.norm(st, a[2]), E.norm(st, a[4]),
           loc(E.derefloc(st, a[3])), rd(E, st, a[3], "discard"))
    wr(E, s, a[0], EMPTY if is_agg(E.norm(st, a[4]), "Top") else ("pending", E.fresh()), "buf_writable", "buf")
    touch(E, s, a[0], "next_ws", "skip_ws")
    return [(s, ok(("call", "size", (("int", E.fresh()),))))]


def v_visit(kind):
    def h(E, fr, st, a, line):
        t = tuple(E.norm(st, x) for x in a[2:])
        s = op(st, "visit", kind, gen_of(E, st, a[0]), t, loc(E.derefloc(st, a[1])))
        s = bufapp(E, s, a[1], (("h", (kind,) + t, ""),))
        r = ("wrap", kind, t)
        return [(s, ok(r if kind != "args" else UNIT))]
    return h


def v_target(E, fr, st, a, line):
    t = tuple(E.norm(st, x) for x in a[2:])
    s = op(st, "target", gen_of(E, st, a[0]), loc(E.derefloc(st, a[1])), t)
    s = bufapp(E, s, a[1], (("h", ("target", t[2]), ""),))
    touch(E, s, a[0], "locals")
    return [(s, UNIT)]


def v_ws(name):
    def h(E, fr, st, a, line):
        s = op(st, "ws", name, gen_of(E, st, a[0]), E.norm(st, a[1]))
        if name == "flush":
            if rd(E, s, a[0], "next_ws") != NONE:
                enqueue(E, s, a[0], LITERAL, "buf_writable", "buf")
            wr(E, s, a[0], NONE, "next_ws")
        else:
            touch(E, s, a[0], "skip_ws")
        return [(s, UNIT)]
    return h


def v_lit(E, fr, st, a, line):
    s = op(st, "lit", gen_of(E, st, a[0]), E.norm(st, a[1]))
    enqueue(E, s, a[0], LITERAL, "buf_writable", "buf")
    touch(E, s, a[0], "next_ws", "skip_ws")
    return [(s, UNIT)]


def v_queue(E, fr, st, a, line):
    item = E.norm(st, a[1])
    s = op(st, "queue", loc(E.derefloc(st, a[0])), item)
    enqueue(E, s, a[0], item, "buf")
    return [(s, UNIT)]


def v_scope(name):
    def h(E, fr, st, a, line):
        root, path = E.derefloc(st, a[0])
        s = op(st, name, loc((root, path)), *[E.norm(st, x) for x in a[1:]])
        v = E.read(s, root, path)
        b = v
        while b[0] == "mut":
            b = b[1]
        E.write(s, root, path, ("mut", b, E.fresh()))
        return [(s, UNIT)]
    return h


def v_pure(name):
    def h(E, fr, st, a, line):
        return [(st, ("call", name, tuple(E.norm(st, x) for x in a)))]
    return h


def v_pureok(name):
    def h(E, fr, st, a, line):
        return [(st, ok(("call", name, tuple(E.norm(st, x) for x in a))))]
    return h


VOCAB = {
    G + "Buffer::write": v_write, G + "Buffer::writeln": v_writeln, G + "Buffer::indent": v_nop, G + "Buffer::dedent": v_nopok,
    GEN + "write_buf_writable": v_flush, GEN + "handle": v_handle,
    GEN + "visit_expr": v_visit("expr"), GEN + "visit_filter": v_visit("filter"), GEN + "visit_attr": v_visit("attr"),
    GEN + "_visit_args": v_visit("args"),
    GEN + "visit_target": v_target, GEN + "flush_ws": v_ws("flush"), GEN + "prepare_ws": v_ws("prepare"), GEN + "visit_lit": v_lit,
    G + "WritableBuffer::push": v_queue, G + "MapChain::push": v_scope("push"), G + "MapChain::pop": v_scope("pop"),
    G + "MapChain::insert": v_scope("bind"), G + "MapChain::insert_with_default": v_scope("bind-default"),
    G + "MapChain::get": v_pure("get"), G + "MapChain::resolve": v_pure("resolve"), G + "MapChain::resolve_or_self": v_pure("resolve_or_self"),
    G + "MapChain::with_parent": v_pure("with_parent"),
    GEN + "is_shadowing_variable": v_pureok("is_shadowing_variable"),
    G + "normalize_identifier": v_pure("normalize_identifier"), G + "is_cacheable": v_pure("is_cacheable"),
    G + "median": v_pure("size"),
    G + "insert_first_filter_argument": None, "heritage::Heritage::new": v_pure("Heritage::new"),
}


def v_insfirst(E, fr, st, a, line):
    root, path = E.derefloc(st, a[0])
    s = st.copy()
    E.write(s, root, path, ("call", "with_first", (E.norm(st, E.read(st, root, path)), E.norm(st, a[1]))))
    return [(s, UNIT)]


VOCAB[G + "insert_first_filter_argument"] = v_insfirst


# token streams built with quote!, as code
def ts_append(E, st, v, toks):
    from models import squeeze
    root, path = E.derefloc(st, v)
    x = E.norm(st, E.read(st, root, path))
    s = st.copy()
    E.write(s, root, path, ("code", squeeze(tuple(x[1] if x[0] == "code" else (("h", x, ""),)) + tuple(toks))))
    return [(s, UNIT)]


def q_lit(text):
    def h(E, fr, st, a, line):
        return ts_append(E, st, a[0], (("s", text),))
    return h


def q_ident(E, fr, st, a, line):
    return ts_append(E, st, a[0], toks_of(E, st, a[1]))


def q_group(E, fr, st, a, line):
    d = E.norm(st, a[1])
    l, r = {"Parenthesis": "()", "Brace": "{}", "Bracket": "[]"}.get(d[2] if is_agg(d) else "", "  ")
    return ts_append(E, st, a[0], (("s", l),) + tuple(toks_of(E, st, a[2])) + (("s", r),))


def q_tokens(E, fr, st, a, line):
    v = E.norm(st, a[0])
    return ts_append(E, st, a[1], v[1] if v[0] == "code" else (("h", v, ""),))


Q = "quote::__private::push_"
QUOTE = {Q + n: q_lit(t) for n, t in {"bang": "!", "semi": ";", "colon": ":", "colon2": "::", "comma": ",", "dot": ".", "eq": "=", "lt": "<", "gt": ">",
                                      "add": "+", "and": "&", "star": "*", "question": "?", "rarrow": "->", "pound": "#", "underscore": "_"}.items()}
QUOTE.update({Q + "ident": q_ident, Q + "group": q_group, "quote::ToTokens::to_tokens": q_tokens,
              "proc_macro2::TokenStream::new": lambda E, fr, st, a, line: [(st, ("code", ()))]})
VOCAB.update(QUOTE)


def default_value(ty):
    t = ty.split("<")[0]
    if t.endswith("generator::WritableBuffer"):
        return agg("generator::WritableBuffer", None, [("buf", EMPTY), ("discard", FALSE)])
    if t.endswith("generator::MapChain"):
        return ("call", "empty-scopes", ())
    if t.endswith("generator::LocalMeta"):
        return agg("generator::LocalMeta", None, [("refs", NONE), ("initialized", FALSE)])
    return None


def seed(E, genp="p0", bufs=()):
    """Initial state: the generator and its buffers as records, so that updates of single fields stay visible."""
    st = State()
    if genp:
        g = ("param", genp)
        fs = []
        for f in ("input", "contexts", "heritage", "locals", "next_ws", "skip_ws", "super_block", "buf_writable", "named"):
            x = ("fld", g, f)
            if f == "buf_writable":
                x = agg("generator::WritableBuffer", None, [("buf", ("pending", 0)), ("discard", ("fld", x, "discard"))])
            fs.append((f, x))
        adt = E.prog.crates["askama_derive"].adts.get("generator::Generator")
        if adt:
            have = {f for f, _ in fs}
            fs += [(f[0], ("fld", g, f[0])) for f in adt["variants"][0][1] if f[0] not in have]
        st.mem[("H", g)] = agg("generator::Generator", None, fs)
    for b in bufs:
        p = ("param", b)
        st.mem[("H", p)] = agg("generator::Buffer", None, [("buf", ("code", ())), ("indent", ("fld", p, "indent")),
                                                          ("start", ("fld", p, "start")), ("discard", ("fld", p, "discard"))])
    return st


def engine(C, drop=(), extra=None, **kw):
    v = {k: h for k, h in VOCAB.items() if k not in drop}
    if extra:
        v.update(extra)
    for k in v:
        if k.startswith(G) and k not in C.P.crates["askama_derive"].by:
            raise Missing("askama_derive::" + k)
    E = C.engine("askama_derive", vocab=v, **kw)
    E.default_value = default_value
    E.frozen = {"input", "contexts", "heritage"}
    return E


def run_gen(C, E, body, bufs=("p1",), genp="p0", args=None):
    st = seed(E, genp, bufs)
    r = E.run(body, args=args, st=st)
    C.R.functions.add(body.crate + "::" + body.npath)
    C.R.functions |= {body.crate + "::" + x for x in E.inlined}
    C.R.paths += len(r)
    return r


def node_paths(C):
    """Paths of one iteration of Generator::handle by node kind: {kind: [(conds, events, updates)]}, plus the paths of
    the whole function [(state, retval)]."""
    if hasattr(C, "_np"):
        return C._np
    b = C.body("askama_derive", GEN + "handle")
    E = engine(C, drop=(GEN + "handle",), max_depth=6)
    # the recursion stays a primitive
    def h(E2, fr, st, a, line):
        return v_handle(E2, fr, st, a, line)
    E.vocab[GEN + "handle"] = h
    res = run_gen(C, E, b, bufs=("p3",))
    kinds = {}
    loops = {}
    for st, rv in res:
        for e in st.ev:
            if e[0] == "loop":
                loops[e[1]] = e
    C._np = (b, E, res, loops)
    return C._np


# ------------------------------------------------------------------ linear scenarios
def subst(t, m):
    """Replace sub-terms (m: term -> term), outermost first."""
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)


def has_ops(e):
    return any(x[0] == "op" for x in flat_events((e,)))


def loop_src(e):
    srcs = set()
    for a in e[2]:
        it = [c[1] for c in a[0] if c[0] == "iter" and c[2] == "next"]
        if not it:
            raise Undecided("loop without an iterator")
        srcs.add(it[0])
    if len(srcs) != 1:
        raise Undecided("loop over %d sources" % len(srcs))
    return srcs.pop()


def linear(evs, counts=(1, 2, 3), limit=6000, m0=None, items=False):
    """All linear op sequences: loops unrolled the given numbers of times, elements numbered, loop variables threaded
    from their initial values, alternatives whose conditions contradict the position dropped. With items, what a loop
    appends to a local list is an op ("item", list, value), and a loop over that list visits exactly these.
    [(conds, ops)]"""
    return dedup([(c, o) for c, o, m in linear0(evs, counts, limit, m0 or {}, items)])


def appended(src, ops):
    """The items of a list that consists of what an earlier loop appended to it."""
    if src[0] == "vec" and len(src[1]) == 1 and src[1][0][0] == "star":
        _, lid, who, path = src[1][0]
        out, on = [], False
        for o in ops:
            if o[0] in ("begin", "end") and o[1] == lid:
                on = o[0] == "begin"
            elif on and o[0] == "item" and o[1] == who:
                out.append(o[2])
        return out
    return None


def expand(t, stars):
    """Replace what earlier iterations wrote to a buffer by the tokens they wrote."""
    if not isinstance(t, tuple):
        return t
    if len(t) == 2 and t[0] == "code" and isinstance(t[1], tuple):
        toks = []
        for x in t[1]:
            if x[0] == "star" and len(x) == 4 and x[2][0] == "L" and (x[1], x[2][2]) in stars:
                toks += stars[(x[1], x[2][2])]
            else:
                toks.append(expand(x, stars))
        return ("code", tuple(toks))
    return tuple(expand(x, stars) for x in t)


def linear0(evs, counts, limit, m0, items=False):
    seqs = [((), (), m0)]
    for e in evs:
        nxt = []
        if e[0] == "loop":
            src = None
            if has_ops(e) or items and any(a[2] for a in e[2]):
                src = loop_src(e)
            for c, o, m in seqs:
                if src is None:
                    nxt.append((c, o, m))
                    continue
                e1 = subst(e, m) if m else e
                src1 = subst(src, m) if m else src
                odd = tuple(sorted({("odd", src1, x[3]) for a in e1[2] for x in a[0] if x[0] == "iter" and x[1] == src1 and len(x) > 3}))
                have = appended(src1, o) if items else None
                for n in counts if have is None else (len(have),):
                    runs = [((), (), dict(e1[3]))]
                    for k in range(n):
                        r2 = []
                        for rc, ro, lm in runs:
                            mm = dict(lm)
                            mm[("elem", src1)] = ("elem", src1, k) if have is None else have[k]
                            mm[("ix", src1)] = ("int", k)
                            stars = {}
                            for lv, v in lm.items():
                                if v[0] == "code" and lv[0] == "lv" and isinstance(lv[2], tuple):
                                    stars[(lv[1], lv[2][0])] = v[1]
                            for a in e1[2]:
                                if stars:
                                    a = expand(a, stars)
                                cs = tuple(subst(x, mm) for x in a[0] if x[0] != "iter")
                                rs = [evcond(x, {}) for x in cs]
                                if False in rs:
                                    continue
                                cs = tuple(x for x, r in zip(cs, rs) if r is None)
                                if not compatible(rc, cs):
                                    continue
                                for c2, o2, _ in linear0([subst(x, mm) for x in a[1]], counts, limit, {}, items):
                                    if items:
                                        o2 += tuple(("item", who, subst(v, mm)) for who, vs in a[2] for v in vs)
                                    if compatible(rc + cs, c2):
                                        r2.append((rc + cs + c2, ro + o2, {lv: subst(v, mm) for lv, v in a[3]}))
                        seen, runs = set(), []
                        for x in r2:
                            k2 = (x[0], x[1], tuple(sorted(x[2].items(), key=repr)))
                            if k2 not in seen:
                                seen.add(k2)
                                runs.append(x)
                        if len(runs) > limit:
                            raise Undecided("too many scenarios")
                    for rc, ro, lm in runs:
                        m2 = dict(m)
                        m2.update(lm)
                        if compatible(c, rc):
                            nxt.append((c + rc + odd + (("count", src1, n),), o + (("begin", e1[1]),) + ro + (("end", e1[1]),), m2))
        else:
            for c, o, m in seqs:
                x = subst(e, m) if m else e
                if x[0] == "op":
                    nxt.append((c, o + (x[1:],), m))
                elif x[0] == "call":
                    nxt.append((c, o + (("call",) + x[1:3] + (x[5],),), m))
                else:
                    nxt.append((c, o, m))
        seqs = nxt
        if len(seqs) > limit:
            raise Undecided("too many scenarios")
    return seqs


def dedup(seqs):
    seen, out = set(), []
    for c, o in seqs:
        if (c, o) not in seen:
            seen.add((c, o))
            out.append((c, o))
    return out


def compatible(a, b):
    s = set(a)
    for c in b:
        if c[0] == "t" and ("t", c[1], not c[2]) in s:
            return False
        if c[0] == "is" and any(x[0] == "is" and x[1] == c[1] and x[2] != c[2] for x in s):
            return False
    return True


def scenarios(C, counts=(1, 2)):
    """{node kind: [(conds, ops)]} for one node handled by Generator::handle."""
    key = "_sc%s" % (counts,)
    if hasattr(C, key):
        return getattr(C, key)
    b, E, res, loops = node_paths(C)
    top = None
    for st, rv in res:
        for e in st.ev:
            if e[0] == "loop" and len(e[2]) > 10:
                top = e
    if top is None:
        raise Missing("the loop over the nodes in Generator::handle")
    src = loop_src(top)
    el = ("elem", src)
    out = {}
    for conds, evs, _, upd in top[2]:
        ks = [c[2] for c in conds if c[0] == "is" and c[1] == el]
        if len(ks) != 1:
            raise Undecided("node kind of an iteration: %s" % ks)
        m = {("as", el, ks[0]): ("node", ks[0]), el: ("node", ks[0])}
        cs = tuple(subst(c, m) for c in conds if c[0] != "iter" and not (c[0] == "is" and c[1] == el))
        for c2, ops in linear([subst(e, m) for e in evs], counts):
            out.setdefault(ks[0], []).append((cs + c2, ops))
    C._top = (b, top, src)
    setattr(C, key, out)
    return out


def tname(t):
    """Short name of a term relative to the node."""
    k = t[0]
    if k == "node":
        return "N"
    if k == "fld":
        return "%s.%s" % (tname(t[1]), t[2])
    if k == "as":
        return "%s" % tname(t[1]) if t[2] in ("Some",) else "%s@%s" % (tname(t[1]), t[2])
    if k == "elem" and len(t) == 3:
        return "%s[%d]" % (tname(t[1]), t[2])
    if k == "param":
        return t[1]
    return pp(t)


def text(toks, ops=()):
    """Text of tokens; what a loop wrote into a local buffer is looked up among the operations before."""
    out = ""
    for t in toks:
        if t[0] == "s":
            out += t[1]
        elif t[0] == "star" and len(t) > 2:
            who, on = loc((t[2], t[3])), False
            for o in ops:
                if o[0] in ("begin", "end") and o[1] == t[1]:
                    on = o[0] == "begin"
                elif on and o[0] == "emit" and o[1] == who:
                    out += text(o[2], ops)
        elif t[0] == "h" and t[1][0] == "code":
            out += text(t[1][1], ops)
        else:
            out += hole(t)
    return out


def hole(t):
    if t[0] == "star":
        return "⟦*⟧"
    x, spec = t[1], t[2]
    if x[0] in ("expr", "filter", "attr", "args", "target"):
        return "⟦%s %s⟧" % (x[0], " ".join(tname(y) for y in x[1:]))
    if x[0] == "written":
        return ""
    return "⟦%s%s⟧" % (tname(x), ":" + spec if spec else "")


def code_of(ops, main):
    """The code sequence of a scenario: text of the main buffer with ⟦W⟧ for flushes and ⟦B …⟧ for bodies."""
    out = ""
    for i, o in enumerate(ops):
        if o[0] == "emit" and o[1] == main:
            out += text(o[2], ops[:i])
        elif o[0] == "flush" and o[3] == main:
            out += "⟦W⟧"
        elif o[0] == "handle" and o[6] == main:
            out += "⟦B %s %s⟧" % (tname(o[4]), o[5][2] if is_agg(o[5]) else tname(o[5]))
    return out


def nows(s):
    return "".join(s.split())


class Facts:
    """The conditions of a scenario, by short name."""

    def __init__(self, conds):
        self.conds = conds
        self.v, self.n, self.b = {}, {}, {}
        for c in conds:
            if c[0] == "is":
                self.v[tname(c[1])] = c[2]
            elif c[0] == "not":
                self.n.setdefault(tname(c[1]), set()).update(c[2])
            elif c[0] == "t":
                self.b[pp2(c[1])] = c[2]

    def of(self, name):
        return self.v.get(name)

    def isnt(self, name, variant):
        return variant in self.n.get(name, ()) or (name in self.v and self.v[name] != variant)

    def count(self, name):
        for c in self.conds:
            if c[0] == "count" and tname(c[1]) == name:
                return c[2]
        return None

    def odd(self):
        return [c for c in self.conds if c[0] == "odd"]


def pp2(t):
    """Like tname, through equalities."""
    if t[0] == "eq":
        return "%s == %s" % (pp2(t[1]), pp2(t[2]))
    if t[0] in ("str", "int", "bool"):
        return pp(t)
    if t[0] in ("empty", "not") or t[0] == "call":
        return "%s(%s)" % (t[0] if t[0] != "call" else t[1].split("::")[-1], ", ".join(pp2(x) for x in (t[1:] if t[0] != "call" else t[2])))
    return tname(t)


def sim(ops):
    """The queue of pending output along a scenario: [(op, state before the op)], 0 nothing pending, 1 literals and
    generated code only, 2 possibly expressions, whose names are resolved when they are written."""
    out, pend, nws = [], 2, True
    for o in ops:
        out.append((o, pend))
        k = o[0]
        if k == "flush":
            pend = 0
        elif k == "ws" and o[1] == "flush":
            if nws:
                pend = max(pend, 1)
            nws = False
        elif k == "lit":
            pend, nws = max(pend, 1), True
        elif k == "queue":
            pend = max(pend, 1 if is_agg(o[2]) and o[2][2] in ("Lit", "Generated") else 2)
        elif k == "handle":
            pend, nws = (0, False) if is_agg(o[5], "Top") else (2, True)
    return out


def foreign(o):
    """Does this handle run on a generator whose queue is its own, starting empty?"""
    g = o[2]
    w = fields(g).get("buf_writable") if is_agg(g) else None
    return is_agg(w) and fields(w)["buf"] == EMPTY


def skeleton(ops, main="p3"):
    """Generated code of a scenario without white space: ⟦W⟧ where pending output is written, ⟦B …⟧ for bodies, ⟦?⟧
    where code is emitted, or a generator with a queue of its own is started, while output is still pending."""
    out = []
    for i, (o, pend) in enumerate(sim(ops)):
        if o[0] == "emit" and o[1] == main:
            t = nows(text(o[2], ops[:i]))
            if t:
                if pend:
                    out.append("⟦?⟧")
                out.append(t)
        elif o[0] == "flush" and o[3] == main:
            if pend:
                out.append("⟦W⟧")
        elif o[0] == "handle" and o[6] == main:
            if pend and foreign(o) and o[1] != "p0":
                out.append("⟦?⟧")
            out.append("⟦B%s:%s⟧" % (nows(tname(o[4])), o[5][2] if is_agg(o[5]) else nows(tname(o[5]))))
    while out and out[-1] == "⟦W⟧":
        out.pop()
    return "".join(out)


def braces(s):
    """Projection of a skeleton to bodies, flushes and (non-empty pairs of) braces."""
    out, i = "", 0
    while i < len(s):
        if s[i] == "⟦":
            j = s.index("⟧", i)
            if s[i + 1] in "WB?":
                out += s[i:j + 1]
            i = j + 1
            continue
        if s[i] in "{}":
            out += s[i]
        i += 1
    while "{}" in out:
        out = out.replace("{}", "")
    return out


def names_of_locals(s):
    """Rename the local variables the generated code introduces to $0, $1, … in order of introduction."""
    import re
    m = {}
    for x in re.finditer(r"let(?:mut)?(_[a-z_0-9]+|[a-z]\w*)=|,(_\w+)\)in|\|(\w+)\|", s):
        n = x.group(1) or x.group(2) or x.group(3)
        if n not in m:
            m[n] = "$%d" % len(m)
    for n, r in sorted(m.items(), key=lambda x: -len(x[0])):
        s = re.sub(r"(?<![\w])%s(?![\w])|(?<=let)%s(?==)|(?<=letmut)%s(?==)" % ((re.escape(n),) * 3), r, s)
    return s


# ------------------------------------------------------------------ writing the queue
class QueueWrite:
    """One path of write_buf_writable: the code emitted, and the loop that built its parts."""

    def __init__(self, st, toks, lp):
        self.st, self.toks, self.lp = st, toks, lp
        self.src = loop_src(lp)
        self.el = ("elem", self.src)
        self.holes = [t for t in toks if t[0] == "h"]
        self.text = nows("".join(t[1] if t[0] == "s" else ("⟦%d⟧" % self.holes.index(t) if t[0] == "h" else "⟦raw⟧") for t in toks))
        self.fmt = len(self.holes) == 2
        # (conds, {buffer: tokens}, ops)
        self.items = []
        for a in lp[2]:
            out = {}
            for e in a[1]:
                if e[0] == "op" and e[1] == "emit":
                    out[e[2]] = out.get(e[2], ()) + e[3]
            ks = [c[2] for c in a[0] if c[0] == "is" and c[1] == self.el]
            self.items.append((ks[0] if ks else None, a[0], out, [e[1:] for e in a[1] if e[0] == "op"], {lv: x for lv, x in a[3]}))

    def buf(self, i):
        """The local buffer that hole i of the emitted code takes its text from."""
        x = self.holes[i][1]
        while x[0] == "call" and x[2] and x[1].split("::")[-1] in ("trim", "trim_end", "as_str", "clone"):
            x = x[2][0]
        if x[0] != "code" or [t[0] for t in x[1]] != ["star"]:
            raise Undecided("emitted text %s" % pp(x)[:80])
        return loc((x[1][0][2], x[1][0][3]))


def queue_writes(C):
    if not hasattr(C, "_qw"):
        b = C.body("askama_derive", GEN + "write_buf_writable")
        def store(E2, fr, st, a, line):
            s = op(st, "store", loc(E2.derefloc(st, a[0])) if a[0][0] == "ref" else "", tuple(E2.norm(st, x) for x in a))
            return [(s, ("call", "stored", (E2.norm(st, a[-1]),)))]
        E = engine(C, drop=(GEN + "write_buf_writable",), max_depth=6, extra={
            n: store for n in ("std::collections::hash_map::VacantEntry::insert", "std::collections::HashMap::insert", "std::collections::hash_map::Entry::or_insert")})
        out = []
        for st, rv in run_gen(C, E, b):
            if not is_agg(rv, "Ok"):
                continue
            toks = tuple(t for e in st.ev if e[0] == "op" and e[1] == "emit" and e[2] == "p1" for t in e[3])
            lps = [e for e in st.ev if e[0] == "loop"]
            if not toks:
                continue
            if len(lps) != 1:
                raise Undecided("%d loops over the queue" % len(lps))
            out.append(QueueWrite(st, toks, lps[0]))
        if not out:
            raise Undecided("nothing is written")
        C._qw = (b, out)
    return C._qw


# ------------------------------------------------------------------ the whole template
def rec(name, result=None, skip=0):
    """Primitive recorded as an op with its arguments; returns Ok of a call term."""
    def h(E, fr, st, a, line):
        t = tuple(E.norm(st, x) for x in a[skip:])
        return [(op(st, name, *t), result(t) if result else ok(("call", name, t)))]
    return h


def template_paths(C):
    """Paths of Generator::impl_template: (body, [(conds, events, retval)])."""
    if not hasattr(C, "_tp"):
        b = C.body("askama_derive", GEN + "impl_template")

        def wb(E, fr, st, a, line):
            root, path = E.derefloc(st, a[2])
            bufd = E.norm(st, E.read(st, root, path + (("f", "discard"),)))
            t = tuple(E.norm(st, E.read(st, *E.derefloc(st, x)) if x[0] == "ref" else x) for x in (a[1], a[3], a[4]))
            s = op(st, "write_block", gen_of(E, st, a[0]), t[0], t[1], t[2], loc((root, path)), bufd)
            return [(s, ok(("call", "size", (("int", E.fresh()),))))]
        E = engine(C, max_depth=4, extra={GEN + "write_block": wb, GEN + "write_header": v_nopok})
        C._tp = (b, [(st.conds, st.ev, rv) for st, rv in run_gen(C, E, b, bufs=("p2",))])
    return C._tp


def build_paths(C):
    """Paths of build_template, its parts as primitives: (body, [(conds, events, retval)])."""
    if not hasattr(C, "_bp"):
        b = C.body("askama_derive", "build_template")
        prims = {"input::TemplateArgs::new": "args", "config::Config::new": "config", "config::read_config_file": "config-file",
                 "input::TemplateInput::new": "input", "input::TemplateInput::find_used_templates": "find",
                 "heritage::Context::new": "context", "generator::Generator::build": "generate"}
        V = {k: rec(v) for k, v in prims.items()}
        V["heritage::Heritage::new"] = v_pure("heritage")
        V["generator::Generator::new"] = v_pure("generator")

        def insert(E, fr, st, a, line):
            root, path = E.derefloc(st, a[0])
            st.ev += (("op", "insert", loc((root, path)), E.norm(st, a[1]), E.norm(st, a[2])),)
            return NotImplemented
        V["std::collections::HashMap::insert"] = insert
        for k in list(prims) + ["heritage::Heritage::new", "generator::Generator::new"]:
            if k not in C.P.crates["askama_derive"].by:
                raise Missing("askama_derive::" + k)
        E = C.engine("askama_derive", vocab=V, max_depth=3)
        C._bp = (b, [(st.conds, st.ev, rv) for st, rv in C.run(E, b)])
    return C._bp



def body_fields(C):
    """{node kind: [path]} of the lists of nodes inside every kind of node, from the type definitions; a path is a tuple
    of field names, "*" for the elements of a list."""
    if hasattr(C, "_bf"):
        return C._bf
    import re
    adts = C.P.crates["askama_parser"].adts

    def paths(t, depth):
        t = re.sub(r"^(&('\w+ )?(mut )?)+", "", t.strip())
        m = re.match(r"std::(vec::Vec|boxed::Box|option::Option)<(.*)>$", t)
        if m:
            if m.group(1) == "vec::Vec":
                if m.group(2).startswith("node::Node<"):
                    return [()]
                return [("*",) + p for p in paths(m.group(2), depth)]
            return paths(m.group(2), depth)
        d = adts.get(re.sub(r"<.*", "", t))
        if d is None or depth > 4 or d["kind"] != "struct":
            return []
        return [(f[0],) + p for f in d["variants"][0][1] for p in paths(f[1], depth + 1)]
    C._bf = {v: [(f[0],) + p for f in fs for p in paths(f[1], 0)] for v, fs in adts["node::Node"]["variants"]}
    if not any(C._bf.values()):
        raise Missing("bodies of node::Node")
    return C._bf


def body_terms(C, el, kind):
    """The terms of the node lists inside a node of the kind."""
    out = []
    for p in body_fields(C)[kind]:
        t = ("as", el, kind)
        for f in p:
            t = ("elem", t) if f == "*" else ("fld", t, f)
        out.append(t)
    return out


def strip_agg(t):
    """Cow wrappers and fields of known aggregates removed."""
    while isinstance(t, tuple) and (is_agg(t, "Borrowed") or is_agg(t, "Owned")):
        t = fields(t)["0"]
    if isinstance(t, tuple) and t[0] == "fld" and is_agg(t[1]):
        v = fields(t[1]).get(t[2])
        if v is not None:
            return strip_agg(v)
    return t


class CallCtx:
    """What the models of iterators need to know of a call."""

    def __init__(self, E, fr, st):
        self.E, self.fr, self.st, self.a, self.g, self.line = E, fr, st, (), "", 0

    def apply(self, st, fn, args):
        return self.E.apply(self.fr, st, fn, args)


class Walk:
    """A work list over the nodes of a template: what is done for each kind of node."""

    def __init__(self, C, fname, max_depth=4, extra=None):
        self.b = C.body("askama_derive", fname)

        def note(name, n):
            def h(E, fr, st, a, line):
                st.ev += (("op", name, loc(E.derefloc(st, a[0]))) + tuple(E.norm(st, x) for x in a[1:1 + n]),)
                return NotImplemented
            return h
        def entry(E, fr, st, a, line):
            st.ev += (("op", "insert", loc(E.derefloc(st, a[0])), E.norm(st, a[1]), None),)
            return NotImplemented

        def extend(E, fr, st, a, line):
            from models import iterof, iter_items
            s0 = st.copy()
            s0.ev = ()
            who = loc(E.derefloc(st, a[0]))
            for s, x in iter_items(CallCtx(E, fr, st), iterof(E, st, a[1]), s0):
                st.ev += (("op", "append", who, E.norm(s, x)),)
            return NotImplemented
        V = {"std::iter::Extend::extend": extend, "std::collections::HashMap::entry": entry, "std::vec::Vec::push": note("append", 1), "std::collections::HashMap::insert": note("insert", 2), "std::vec::Vec::pop": note("pop", 0)}
        V.update(extra or {})
        E = self.E = C.engine("askama_derive", max_depth=max_depth, vocab=V)
        self.paths = [(st.conds, st.ev, rv, st) for st, rv in C.run(E, self.b)]
        self.alts = []
        seen = set()

        def scan(evs, outer):
            for e in evs:
                if e[0] != "loop":
                    continue
                here = any(c[0] == "is" and c[1][0] == "elem" and c[2] in body_fields(C) and body_fields(C)[c[2]] for a in e[2] for c in a[0])
                for a in e[2]:
                    if here:
                        src = loop_src(e)
                        el = ("elem", src)
                        ks = [c[2] for c in a[0] if c[0] == "is" and c[1] == el]
                        no = [x for c in a[0] if c[0] == "not" and c[1] == el for x in c[2]]
                        k = (e[1], a)
                        if k not in seen:
                            seen.add(k)
                            self.alts.append((ks[0] if ks else None, set(no), a[0], a[1], a[3], el, src, outer))
                    else:
                        scan(a[1], outer + ((e, a),))
        for conds, evs, rv, st in self.paths:
            scan(evs, ())
        if not self.alts:
            raise Undecided("no loop over nodes in " + fname)

    def kind(self, C, k):
        """Alternatives for a node kind."""
        return [a for a in self.alts if a[0] == k or (a[0] is None and k not in a[1])]

    def errors(self, k):
        """Paths with an error for a node of the kind: [(conds, value)]"""
        out = []
        for conds, evs, rv, st in self.paths:
            if is_agg(rv, "Err") and any(c[0] == "is" and c[1][0] == "elem" and c[2] == k for c in conds):
                out.append((conds, fields(rv)["0"]))
        return out


def base_of(x):
    while x[0] in ("mut", "upd"):
        x = x[1]
    return x
