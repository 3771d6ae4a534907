"""What follows the name of a tag must be read as documented, part by part, and every part must end up in its own field of the node. The grammar
of each parser of a tag, pattern and argument list is lowered to a regular expression over tokens (tags, keywords, and what the other parsers
read), each labelled with the field its value goes to; together with the constant fields it must denote the language of the reference
expression, blanks set aside. With blanks, every text of the reference (blanks between any two parts) must be accepted. Conditions on the
names that were read are decided on cases: they must reject what the reference rejects (another name at the end of a block or macro, reserved
names, a tag of another name) and nothing else."""
from parslib import *
import parslib
import dfa
from mir import strip_generics

INLINE = {"node::CondTest::parse", "node::Cond::parse", "node::When::when", "node::When::r#else", "node::Target::lit", "node::Target::named",
          "node::Target::parse_one", "node::Node::r#break", "node::Node::r#continue", "expr::Expr::named_argument"}
SHORT = {"State::tag_block_start": "{%", "State::tag_block_end": "%}", "State::tag_expr_start": "{{", "State::tag_expr_end": "}}", "node::Node::many": "Nodes",
         "node::Whitespace::parse": "Mark", "expr::Expr::parse": "Expr", "node::Target::parse": "Target", "filter": "Filter", "expr::Expr::arguments": "Arguments"}
DROP = {"State::nest", "State::leave"}


# ---- regular expressions over tokens: ("sym", s) ("cat", xs) ("alt", xs) ("star", x)

def nfa(x):
    tr, n = {}, [1]

    def new():
        n[0] += 1
        return n[0] - 1

    def go(x, a):
        k = x[0]
        if k == "sym":
            b = new()
            tr.setdefault(a, []).append((x[1], b))
            return b
        if k == "cat":
            for y in x[1]:
                a = go(y, a)
            return a
        if k == "alt":
            b = new()
            for y in x[1]:
                c = new()
                tr.setdefault(a, []).append((None, c))
                tr.setdefault(go(y, c), []).append((None, b))
            return b
        b, c = new(), new()
        tr.setdefault(a, []).append((None, b))
        tr.setdefault(go(x[1], b), []).append((None, b))
        tr.setdefault(b, []).append((None, c))
        return c
    return tr, go(x, 0)


def symbols(x, acc):
    if x[0] == "sym":
        acc.add(x[1])
    elif x[0] == "star":
        symbols(x[1], acc)
    else:
        for y in x[1]:
            symbols(y, acc)
    return acc


def automaton(x, syms):
    tr, end = nfa(x)
    ids = {s: i for i, s in enumerate(syms)}
    return dfa.build(len(syms), [0], lambda q, a: [b for s, b in tr.get(q, ()) if s is not None and ids[s] == a],
                     lambda q: [b for s, b in tr.get(q, ()) if s is None], lambda q: q == end, list(range(len(syms))))


def text(w, syms):
    return " ".join("%s%s" % (syms[i][0], "→" + ",".join(syms[i][1]) if syms[i][1] else "") for i in w) or "nothing"


B = ("star", ("sym", ("_", ())))


def blanked(x, on):
    """Without blanks, or with the blanks as such."""
    if x[0] == "star":
        return B if on and x == B else ("cat", ()) if x == B else ("star", blanked(x[1], on))
    return x if x[0] == "sym" else (x[0], tuple(blanked(y, on) for y in x[1]))


# ---- from the grammar

def split(steps, conds, out):
    """Alternatives without options."""
    for st, cs, o in expand(steps, conds, out):
        ks = [k for k, s in enumerate(st) if s[0] == "opt"]
        if not ks:
            yield st, cs, o
            continue
        for v in ("Some", "None"):
            c2 = settle(list(cs) + [("is", ("o", ks[0]), v)])
            if c2 is not None:
                yield from split(st, tuple(c2), o)


def items(t, inner=False):
    """The elements of a list that is made of parts: [(whether all elements of a repetition, term)]."""
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == "vec":
        xs = []
        for x in t[1]:
            xs.append((True, x[1]) if isinstance(x, tuple) and x and x[0] == "@each" else (False, x))
        return xs
    if inner and is_agg(t) and strip_generics(t[1]).endswith("Option"):
        return [] if t[2] == "None" else [(False, t[3][0][1])]
    if inner and t[0] in ("o", "fld"):
        return [(True, t)]
    n, a = (t[1].split("::")[-1], t[2]) if t[0] == "call" else (t[0], t[1:])
    if n == "@push":
        l = items(a[0], True)
        return None if l is None else l + [(False, a[1])]
    if n == "@cons":
        l = items(a[1], True)
        return None if l is None else [(False, a[0])] + l
    if n == "chain":
        l, r = items(a[0], True), items(a[1], True)
        return None if l is None or r is None else l + r
    if n in ("collect", "iter", "into_iter") and (inner or n == "collect"):
        return items(a[0], True)
    return None


def leaves(t, path=""):
    """The parts of an output: (where, term)."""
    if is_agg(t):
        name, var = t[1], t[2]
        if strip_generics(name).endswith("Ws"):
            return
        if strip_generics(name).endswith("Option"):
            if var == "None":
                yield path, "None"
            else:
                yield from leaves(t[3][0][1], path)
            return
        if var and name.split("::")[-1] != var:
            path = "%s:%s" % (path, var)
            if not t[3]:
                yield path, "unit"
        n = 0
        for f, x in t[3]:
            for y in leaves(x, "%s.%s" % (path, f) if path else f):
                n += 1
                yield y
        if var and name.split("::")[-1] != var and not n and t[3]:
            yield path, "unit"
    elif items(t) is not None:
        xs = items(t)
        if not xs:
            yield path, "[]"
        for k, (each, x) in enumerate(xs):
            if each:
                yield "%s[%d*]" % (path, k), x
            else:
                yield from leaves(x, "%s[%d]" % (path, k))
    else:
        yield path, t


def appended(p, x):
    """The result whose elements a loop appends, each one in turn and unchanged."""
    loops = [e for e in p.evs if e[0] == "loop"]
    if len(loops) != 1 or loops[0][1] != x[1]:
        raise Undecided("%d loops" % len(loops))
    names = dict(p.names)
    found = None
    for conds, evs, deltas, upds in loops[0][2]:
        if any(c[0] == "iter" and c[2] == "end" for c in conds):
            continue
        its = [c for c in conds if c[0] == "iter" and c[2] == "next"]
        if len(its) != 1 or len(its[0]) > 3 or len(conds) != 1 or found:
            raise Undecided("loop over " + str([pp(c)[:60] for c in conds]))
        src = raw = its[0][1]
        while raw not in names and (raw[0] == "iter" or raw[0] == "call" and raw[1].split("::")[-1] in ("iter", "into_iter", "iter_mut")):
            raw = raw[1] if raw[0] == "iter" else raw[2][0]
        found = names.get(raw, raw)
        got = dict(deltas).get(x[2])
        if found[0] != "o" or got != (("elem", src),):
            raise Undecided("loop over %s appends %s" % (pp(found)[:80], str(got)[:120]))
    if found is None:
        raise Undecided("loop without iterations")
    return found


def prepare(p, conds, out):
    """Repetitions that are copied into lists by their names; no conditions of loops and of the nesting level."""
    def go(t):
        if isinstance(t, tuple) and t and t[0] == "star":
            return ("@each", appended(p, t))
        return tuple(go(x) for x in t) if isinstance(t, tuple) else t
    cs = [c for c in conds if c[0] != "iter" and not (c[0] == "t" and lone(c[1]))]
    return tuple(cs), go(out)


def lone(t):
    """Whether a condition is about the arguments of the parser only: limits, the state."""
    xs = [x for x in subterms(t) if len(x) == 2 and x[0] in ("o", "in", "param")]
    return bool(xs) and all(x[0] == "param" for x in xs) and t[0] != "param"


def between(x):
    """The step that has read exactly this text."""
    if isinstance(x, tuple) and "@text" in x[:2]:
        a = [y for y in subterms(x) if len(y) == 2 and y[0] == "in"]
        if len(a) == 2 and a[1][1] == a[0][1] + 1:
            return a[0][1]
    return None


class Lower:
    def __init__(self, C, G, parser):
        self.C, self.G, self.parser = C, G, parser
        self.cases = []

    def token(self, s, st):
        """(name of the token, None) or None for a step that reads nothing of interest."""
        k = s[0]
        if k == "tag":
            return repr(s[1]) if isinstance(s[1], str) else bad("tag " + pp(s[1]))
        if k == "comb" and s[1] == "keyword" and s[2][0][0] == "str":
            return s[2][0][1]
        if k in ("nt", "leaf"):
            flags = [str(a[1]) for a in s[2] if isinstance(a, tuple) and a and a[0] == "bool"]
            n = s[1] if k == "leaf" else SHORT.get(s[1], s[1].replace("node::", "").replace("expr::", "").replace("::parse", ""))
            return n + ("(%s)" % ",".join(flags) if flags else "")
        raise Undecided("part " + ps(s)[:120])

    def seq(self, steps, conds, out, prefix=""):
        """A sequence of steps whose output is `out`, to be found at `prefix` of the node."""
        labels, const = {}, []
        for where, x in leaves(out, prefix):
            if isinstance(x, str):
                const.append("%s=%s" % (where, x))
                continue
            o, var = x, None
            if isinstance(x, tuple) and x[0] == "fld" and x[1][0] == "as" and x[1][1][0] == "o":
                o, var = x[1][1], x[1][2]
            if isinstance(o, tuple) and o[0] == "o":
                labels.setdefault(o[1], []).append(where + ("" if var is None else "@" + var))
            elif between(x) is not None:
                labels.setdefault(between(x), []).append(where)
            elif not any(isinstance(y, tuple) and len(y) == 2 and y[0] in ("o", "in") for y in subterms(x)):
                const.append("%s=%s" % (where, repr(x) if isinstance(x, (str, bool, int)) else pp(x)))
            else:
                raise Undecided("%s is %s" % (where, pp(x)[:150]))
        xs = []
        for k, s in enumerate(steps):
            lab = tuple(sorted(labels.get(k, ())))
            xs += self.step(s, lab, k, conds, steps)
        xs += [("sym", ("!" + c, ())) for c in sorted(const)]
        x = ("cat", tuple(xs))
        self.cases.append((blanked(x, False), [(labels.get(k, ()), ("o", k)) for k, s in enumerate(steps) if s[0] == "peek" or s[0] in ("leaf", "nt") and s[1] == "identifier"],
                           [c for c in conds if not (c[0] in ("is", "not") and c[1][0] == "o") and not (c[0] == "t" and lone(c[1]))]))
        return x

    def step(self, s, lab, k, conds, steps):
        G = self.G
        kind = s[0]
        if kind in ("no", "failed", "failed-elsewhere", "mark", "peek"):
            return []
        if kind == "nt" and s[1] in DROP:
            return []
        if kind == "ws":
            return [B]
        if kind == "nt" and s[1] == "node::Whitespace::parse":
            return [("sym", ("Mark", ()))]
        if kind in ("many", "sep"):
            if len(lab) > 1:
                raise Undecided("list in two places: " + ", ".join(lab))
            if lab and not lab[0].endswith("*]"):
                lab = (lab[0] + "[0*]",)
            body = self.alts(s[1] if kind == "many" else s[2], lab[0] + "[]" if lab else None)
            if kind == "many":
                return [body, ("star", body)] if s[2] else [("star", body)]
            sp = self.alts(s[1], None)
            x = ("cat", (body, ("star", ("cat", (sp, body)))))
            return [x] if s[3] else [("alt", (("cat", ()), x))]
        if kind == "not":
            if len(s[1]) != 1 or [x[0] for x in s[1][0][0]] != ["tag"]:
                raise Undecided("lookahead " + ps(s)[:100])
            return [("sym", ("not-" + repr(s[1][0][0][0][1]), ()))]
        n = self.token(s, steps)
        var = [c[2] for c in conds if c[0] == "is" and c[1] == ("o", k)]
        if var:
            n += ":" + var[0]
        x = ("sym", (n, lab))
        first, last = self.blanks(s)
        return ([B] if first else []) + [x] + ([B] if last else [])

    def blanks(self, s):
        """Whether a parser accepts blanks before and after what it reads, on every path."""
        if s[0] != "nt" or s[1] not in ("expr::Expr::arguments", "filter"):
            return False, False
        key = ("p09-blank", s[1])
        if not hasattr(self.C, "_p09b"):
            self.C._p09b = {}
        if key not in self.C._p09b:
            ps_ = [[x for x in p.steps if x[0] not in ("no", "mark", "peek")] for p in self.G.paths(s[1]) if p.status == "Ok"]
            self.C._p09b[key] = (all(x and x[0][0] == "ws" for x in ps_), all(x and x[-1][0] == "ws" for x in ps_))
        return self.C._p09b[key]

    def alts(self, P, prefix):
        xs = []
        for a in P:
            if len(a) > 3:
                raise Undecided("non-linear part")
            for st, cs, o in split(a[0], a[1], a[2]):
                out = o if prefix is not None else UNIT
                xs.append(self.seq(st, cs, out, prefix or ""))
        return ("alt", tuple(xs))


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subterms(x)


def bad(m):
    raise Undecided(m)


# ---- the reference

DELIMS = {"{%", "%}", "{{", "}}", "Nodes", "Lit", "Comment", "Node", "Node::expr", "Filter"}


def read(src):
    """A reference expression: [x ? constants] may be absent, with the constants then; (x | y)* (x)+ (x | y); ~ a whitespace mark that may be
    absent; !constant; field=token, field,field=token; 'text'; a lower-case word is a keyword."""
    toks = src.split()
    i = [0]

    def alts(ends):
        res = [[]]
        while toks[i[0]] not in ends:
            t = toks[i[0]]
            i[0] += 1
            if t == "|":
                res.append([])
            elif t == "[":
                x = alts(("]", "?"))
                cs = []
                if toks[i[0]] == "?":
                    i[0] += 1
                    while toks[i[0]] != "]":
                        cs.append(("const", toks[i[0]]))
                        i[0] += 1
                i[0] += 1
                res[-1].append(("opt", x, cs))
            elif t == "(":
                x = alts((")", ")*", ")+"))
                e = toks[i[0]]
                i[0] += 1
                res[-1].append(({")": "grp", ")*": "rep", ")+": "rep1"}[e], x))
            elif t == "~":
                res[-1].append(("mark",))
            elif t == "_":
                res[-1].append(("blank",))
            elif t[0] == "!":
                res[-1].append(("const", t[1:]))
            else:
                lab = ()
                if "=" in t and t[0] != "'":
                    l, t = t.split("=", 1)
                    lab = tuple(sorted(l.split(",")))
                    lab = tuple("" if x == "." else x for x in lab)
                res[-1].append(("tok", t, lab))
        return res

    toks.append("$")
    return alts(("$",))


def flat(seq):
    """The sequences without options."""
    for k, x in enumerate(seq):
        if x[0] in ("opt", "grp", "mark"):
            parts = x[1] + [x[2]] if x[0] == "opt" else x[1] if x[0] == "grp" else [[("tok", "Mark", ())], [("nomark",)]]
            return [z for y in parts for z in flat(list(seq[:k]) + list(y) + list(seq[k + 1:]))]
    return [list(seq)]


def reference(src):
    return ("alt", tuple(refseq(y) for x in read(src) for y in flat(x)))


def edge(x, side):
    """Whether blanks may be at this side of an item."""
    if x[0] == "tok":
        return x[1] not in DELIMS and not x[1].startswith("not-") and "nested" not in x[1]
    if x[0] in ("rep", "rep1"):
        return all(edge(y[side], side) for alt in x[1] for y in flat(alt) if y)
    return True


def refseq(seq):
    const = sorted(x[1] for x in seq if x[0] == "const")
    seq = [x for x in seq if x[0] != "const"]
    xs = []
    for k, x in enumerate(seq):
        if x[0] == "blank":
            xs.append(B)
            continue
        mark = lambda y: y[0] == "nomark" or y[:2] == ("tok", "Mark")
        nxt = seq[k + 1] if k + 1 < len(seq) else None
        prev = seq[k - 1] if k else None
        if x[0] == "nomark" or mark(x):
            m = [("sym", ("Mark", ()))] if x[0] == "tok" else []
            if nxt is None or not edge(nxt, 0):
                # at the end of a tag
                xs += [B] + m
            else:
                xs += m + [B]
            continue
        if prev is not None and prev[0] != "blank" and not mark(prev) and edge(prev, -1) and edge(x, 0):
            xs.append(B)
        if x[0] == "tok":
            xs.append(("sym", (x[1], x[2])))
        else:
            body = ("alt", tuple(refseq(y) for alt in x[1] for y in flat(alt)))
            if edge(x, 0) and edge(x, -1):
                body = ("cat", (body, B))
                xs += [body, ("star", body)] if x[0] == "rep1" else [("star", body)]
            else:
                xs += [body, ("star", body)] if x[0] == "rep1" else [("star", body)]
    return ("cat", tuple(xs) + tuple(("sym", ("!" + c, ())) for c in const))


def test(p):
    return "[ ( let | set ) %s.target=Target '=' ? %s.target=None ] %s.expr=Expr" % (p, p, p)


def listof(x, oc, strict):
    """A list of parts with commas between, one more is allowed behind the last; strict: there must be a part then."""
    o, c = oc
    return ("'%s' [ %s ( ',' %s )* [ ',' ] ] '%s'" if strict else "'%s' [ %s ( ',' %s )* ] [ ',' ] '%s'") % (o, x, x, c)


ARG = "( [0*][]:NamedArgument.0=identifier '=' [0*][]:NamedArgument.1=Expr | [0*][]=Expr )"
FIELD = "( :Struct.1[0*][].0=identifier ':' :Struct.1[0*][].1=Target | :Struct.1[0*][].0,:Struct.1[0*][].1:Name.0=identifier )"
PATH = "path_or_identifier:Path"
TAGS = {"Call": ["call"], "Let": ["let", "set"], "If": ["if"], "Loop": ["for"], "Match": ["match"], "Extends": ["extends"], "Include": ["include"], "Import": ["import"],
        "BlockDef": ["block"], "Macro": ["macro"], "Raw": ["raw"], "break": ["break"], "continue": ["continue"], "FilterBlock": ["filter"]}
REF = {
    "node::Loop": "~ for var=Target in iter=Expr [ if cond=Expr ? cond=None ] ~ %} body=Nodes {% ~ [ else ~ %} else_nodes=Nodes {% ~ ? else_nodes=[] ] endfor ~",
    "node::If": "~ if " + test("branches[0].cond") + " ~ %} branches[0].nodes=Nodes ( {% ~ else [ if " + test("branches[1*][].cond") + " ? branches[1*][].cond=None ] ~ %} "
                "branches[1*][].nodes=Nodes | {% ~ elif " + test("branches[1*][].cond") + " ~ %} branches[1*][].nodes=Nodes )* {% ~ endif ~",
    "node::Let": "~ ( let | set ) var=Target [ '=' val=Expr ? val=None ] ~",
    "node::Match": "~ match expr=Expr ~ %} _ ( Comment _ )* ( {% ~ when arms[0*][].target=Target ~ %} arms[0*][].nodes=Nodes )+ "
                   "[ {% ~ else ~ %} arms[1].nodes=Nodes !arms[1].target:Name.0='_' ] {% ~ endmatch ~",
    "node::Macro": ["~ macro name=identifier [ " + listof("args[0*][]=identifier", "()", st) + " ? args=[] ] ~ %} nodes=Nodes {% ~ endmacro [ identifier ] ~" for st in (True, False)],
    "node::Call": "~ call [ scope=identifier '::' ? scope=None ] name=identifier [ args=Arguments(True) ? args=[] ] ~",
    "node::BlockDef": "~ block name=identifier ~ %} nodes=Nodes {% ~ endblock [ identifier ] ~",
    "node::Include": "~ include path=str_lit ~",
    "node::Import": "~ import path=str_lit as scope=identifier ~",
    "node::Extends": "_ extends path=str_lit _",
    "node::Node::expr": "{{ ~ :Expr.1=Expr ~ }}",
    "node::Node::many": "( [0*][]:Lit.0=Lit | [0*][]:Comment.0=Comment | [0*][]=Node::expr | [0*][]=Node )*",
    "node::Node": " | ".join("{%% ~ %s ~ %%} !:%s=unit" % (v[0], n.capitalize()) if n in ("break", "continue") else "{%% :%s.0=%s %%}" % (n, n) for n, v in TAGS.items()),
    "node::Target::parse_one": [
        ":StrLit.0=str_lit | :CharLit.0=char_lit | :NumLit.0=num_lit | :BoolLit.0=bool_lit | '(' ')' !:Tuple.0=[] !:Tuple.1=[] | '(' .=Target ')' | "
        "'(' :Tuple.1[0]=Target ( ',' :Tuple.1[1*][]=Target )* " + ("( ',' :Tuple.1[1*][]=Target | ',' :Tuple.1[1*][]=Target ',' | ',' )" if st else "[ ',' ]") + " ')' !:Tuple.0=[] | "
        ":Tuple.0@Path=" + PATH + " [ with ] '(' ')' !:Tuple.1=[] | :Tuple.0@Path=" + PATH + " [ with ] '(' :Tuple.1[0*][]=Target ( ',' :Tuple.1[0*][]=Target )* [ ',' ] ')' | "
        ":Struct.0@Path=" + PATH + " [ with ] '{' '}' !:Struct.1=[] | :Struct.0@Path=" + PATH + " [ with ] '{' " + FIELD + " ( ',' " + FIELD + " )* [ ',' ] '}' | "
        ":Path.0@Path=" + PATH + " | :Name.0=identifier" for st in (True, False)],
    "node::FilterBlock": "~ filter filters.name=identifier [ filters.arguments=Arguments(False) ? filters.arguments=[] ] ( filters.more[0*][]=Filter )* ~ %} nodes=Nodes {% ~ endfilter ~",
    "expr::Expr::arguments": [listof(ARG, "()", st) for st in (True, False)],
    "expr::Expr::group": ["'(' ')' !:Tuple.0=[] | '(' :Group.0=Expr ')' | '(' :Tuple.0[0]=Expr ( ',' :Tuple.0[1*][]=Expr )* " + (
        "( ',' :Tuple.0[1*][]=Expr | ',' :Tuple.0[1*][]=Expr ',' | ',' )" if st else "[ ',' ]") + " ')'" for st in (True, False)],
    "expr::Expr::array": [listof(":Array.0[0*][]=Expr", "[]", st) for st in (True, False)],
    "expr::Expr::single": ".=Expr::num | .=Expr::str | .=Expr::char | .=Expr::path_var_bool | .=Expr::array | .=Expr::group",
    "expr::Expr::path_var_bool": ":Path.0@Path=path_or_identifier:Path | :BoolLit.0@Identifier=path_or_identifier:Identifier | :Var.0@Identifier=path_or_identifier:Identifier",
    "expr::Expr::str": ":StrLit.0=str_lit",
    "expr::Expr::num": ":NumLit.0=num_lit",
    "expr::Expr::char": ":CharLit.0=char_lit",
    "expr::Suffix::attr": "'.' not-'.' ( :Attr.0=num_lit | :Attr.0=identifier )",
    "expr::Suffix::index": "'[' :Index.0=Expr ']'",
    "expr::Suffix::call": ":Call.0=Arguments(False)",
    "expr::Suffix::r#try": "'?' !:Try=unit",
    "expr::Suffix::r#macro": "'!' '(' :MacroCall.0=Suffix::r#macro::nested_parenthesis ')'",
    "filter": "'|' 0=identifier [ 1=Arguments(False) ? 1=None ]",
}


def run(C):
    R = C.R
    R.floor = 60
    for name, src in REF.items():
        fn = name if name in ("filter",) or name.startswith("node::Node::") or name.startswith("expr::") or name.endswith("parse_one") else name + "::parse"
        R.section(name, lambda C, name=name, fn=fn, src=src: tag(C, name, fn, src), C)
    R.section("node::Target", chain, C)


def grammar(C):
    if not hasattr(C, "_p09"):
        C._p09 = Grammar(C, nts=parslib.KNOWN - INLINE)
    return C._p09


def forms(C, G, fn, L):
    xs = []
    for p in G.paths(fn):
        if p.status != "Ok":
            continue
        conds, out = prepare(p, p.conds, innermost(G, p) if fn == "node::FilterBlock::parse" else p.out)
        steps = p.steps
        if not p.linear:
            steps = rewound(G, p)
        for st, cs, o in split(steps, conds, out):
            xs.append(L.seq(st, cs, o))
    if not xs:
        raise Undecided("no successful path")
    return ("alt", tuple(xs))


def innermost(G, p):
    """The innermost filter of a block, whose first argument is the place for the content, and the others around it, for the chain of all."""
    it = G.iterations(p)
    o = dict(p.out[3]) if is_agg(p.out) else {}
    if it is None or "filters" not in o:
        raise Undecided("filters of a block")
    get = {}
    for lv, x in it[0].items():
        if is_agg(x) and {n for n, _ in x[3]} == {"name", "arguments"}:
            get.update(dict(x[3]))
        elif isinstance(lv[2], tuple) and lv[2][-1][0] == "f":
            get[lv[2][-1][1]] = x
    loops = [e for e in p.evs if e[0] == "loop"]
    srcs = {c[1] for a in loops[0][2] for c in a[0] if c[0] == "iter"}
    names = dict(p.names)
    many = set()
    for r in srcs:
        while r not in names and (r[0] == "iter" or r[0] == "call" and r[1].split("::")[-1] in ("iter", "into_iter")):
            r = r[1] if r[0] == "iter" else r[2][0]
        many.add(names.get(r))
    if set(get) != {"name", "arguments"} or len(many) != 1 or None in many:
        raise Undecided("filters of a block: %s" % sorted(get))
    a = get["arguments"]
    gen = lambda x: is_agg(x) and x[2] == "Generated"
    if a[0] == "vec" and len(a[1]) == 1 and gen(a[1][0]):
        a = ("vec", ())
    elif "@cons" in a[:2]:
        xs = a[2] if a[0] == "call" else a[1:]
        if not gen(xs[0]):
            raise Undecided("arguments of the innermost filter: " + pp(a)[:120])
        a = xs[1]
    else:
        raise Undecided("arguments of the innermost filter: " + pp(a)[:120])
    o["filters"] = ("agg", "tuple", None, (("name", get["name"]), ("arguments", a), ("more", many.pop())))
    return p.out[:3] + (tuple(o.items()),)


def chain(C):
    """Several patterns with `or` between them are alternatives in this order; one alone is itself."""
    R = C.R
    G = Grammar(C, nts=(parslib.KNOWN - INLINE) | {"node::Target::parse_one"})
    fn = "node::Target::parse"
    w = G.body(fn).where()
    good = [p for p in G.paths(fn) if p.status == "Ok"]
    if not good:
        raise Undecided("no successful path of " + fn)
    for n in (1, 2, 3):
        for p in good:
            st = [s for s in p.steps if s[0] != "nt" or s[1] not in DROP]
            if not p.linear or len(st) != 1 or st[0][0] != "sep":
                raise Undecided(" ".join(ps(s) for s in p.steps)[:200])
            me = ("o", p.steps.index(st[0]))

            def known(t):
                if isinstance(t, tuple) and t and t[-1] == me and "lenof" in t[:2]:
                    return ("int", n)
                if isinstance(t, tuple) and t and t[0] == "call" and t[1].split("::")[-1] == "len" and t[2] == (me,):
                    return ("int", n)
                return tuple(known(x) for x in t) if isinstance(t, tuple) else t
            first = lambda t: isinstance(t, tuple) and t[0] == "fld" and t[1][0] == "as" and t[1][2] == "Some" and me in list(subterms(t)) and any(
                x[0] == "call" and x[1].split("::")[-1] in ("pop", "first", "next", "last", "remove", "swap_remove") for x in subterms(t) if len(x) > 2)
            rs = [evcond(known(c), {}) for c in p.conds if c[0] == "t"]
            if None in rs:
                raise Undecided("condition " + pp(p.conds[rs.index(None)])[:150])
            if False in rs:
                continue
            if any(c[0] == "is" and c[2] == "None" and "pop" in pp(c[1]) for c in p.conds):
                continue
            inner = [[(k, s) for k, s in enumerate(a[0]) if s[0] not in ("no", "ws") and (s[0] != "nt" or s[1] not in DROP)] for P in (st[0][1], st[0][2]) for a in P]
            outs = [a[2] for P in (st[0][1], st[0][2]) for a in P]
            fine = len(inner) == 2 and [s for _, s in inner[0]] == [("tag", "or")] and len(inner[1]) == 1 and inner[1][0][1][:2] == ("nt", "node::Target::parse_one") \
                and outs[1] == ("o", inner[1][0][0])
            R.check(fine and st[0][3] == 1, "chain:parts", "%s reads %s" % (fn, ps(st[0])[:150]), w)
            o = p.out
            plain = isinstance(o, tuple) and o[0] == "call" and o[1].split("::")[-1] in ("remove", "swap_remove") and o[2][0] == me and o[2][1] == ("int", 0)
            got = "one" if plain else "chain" if is_agg(o) and o[2] == "OrChain" and o[3][0][1] == me else "one" if first(o) else None
            if got is None and not is_agg(o):
                raise Undecided("pattern " + pp(o)[:150])
            R.check(got == ("one" if n == 1 else "chain"), "chain:%d" % n, "%d patterns make %s" % (n, pp(o)[:120]), w)


def rewound(G, p):
    """The steps before the place a path that backs up goes on from."""
    r = p.rv
    t = G.rename(rest_of(r), p.names) if not is_agg(r) else G.rename(dict(dict(r[3])["0"][3])["0"], p.names)
    t = simp(t)
    if not (isinstance(t, tuple) and len(t) == 2 and t[0] == "in"):
        raise Undecided("goes on from " + pp(t)[:100])
    return p.steps[:t[1]]


def tag(C, name, fn, src):
    R = C.R
    G = grammar(C)
    w = G.body(fn).where()
    short = name.replace("node::", "").replace("expr::", "")
    L = Lower(C, G, short)
    X = forms(C, G, fn, L)
    src = [src] if isinstance(src, str) else src
    refs = [reference(s) for s in src]
    for what, on in (("parts", False), ("blanks", True)):
        ys = [blanked(r, on) for r in refs]
        x = blanked(X, on)
        syms = set()
        for y in ys + [x]:
            symbols(y, syms)
        syms = sorted(syms)
        A = automaton(x, syms)
        must, may = automaton(ys[0], syms), automaton(ys[-1], syms)
        m = dfa.minus(must, A)
        R.check(not m.acc, "%s:%s" % (what, short), "%s does not read: %s" % (fn, text(dfa.witness(m) or (), syms)), w)
        if not on:
            m = dfa.minus(A, may)
            R.check(not m.acc, "only:" + short, "%s reads: %s" % (fn, text(dfa.witness(m) or (), syms)), w)
    if name == "expr::Expr::path_var_bool":
        return literals(C, L, w, fn)
    if name == "expr::Expr::arguments":
        passed(C, L, w, fn)
    else:
        names(C, short, L, w, fn)


# ---- the names

def literals(C, L, w, fn):
    """The names of the two truth values are literals, all others are variables."""
    val = ("fld", ("as", ("o", 0), "Identifier"), "0")
    for v in ("true", "false", "x", "True", "truex", "falsey", "tru"):
        got = set()
        for key, ids, conds in L.cases:
            lab = [l for x in key[1] if x[0] == "sym" for l in x[1][1]]
            if lab and lab[0].endswith("@Path"):
                continue
            rs = [evcond(c, {val: v}) for c in conds]
            if None in rs:
                raise Undecided("condition " + pp(conds[rs.index(None)])[:150])
            if False not in rs:
                got.add(lab[0].split(".")[0][1:] if lab else "?")
        want = {"BoolLit"} if v in ("true", "false") else {"Var"}
        C.R.check(got == want, "names:literal", "%s makes %s of `%s`" % (fn, "/".join(sorted(got)) or "nothing", v), w)


SAMPLE = ("x", "X", "y", "xx", "xy", "yx", "x_", "_x", "super", "self", "writer", "Super", "Self", "Writer", "supers", "selfs", "writers", "sup", "wri", "_", "", "n" * 40 + "a", "n" * 40 + "b")


def wanted(parser, key, ids):
    """Whether names are accepted: ids is a list of (fields, value)."""
    for labs, v in ids:
        for l in labs:
            if l.endswith(":Name.0") and v in ("self", "writer"):
                return False
            if parser == "Macro" and l == "name" and v == "super":
                return False
        if parser in ("Macro", "BlockDef") and not labs:
            if v != dict((l[0], x) for l, x in ids if l).get("name"):
                return False
        if parser == "Node":
            for x in key[1]:
                n = x[1][0] if x[0] == "sym" else None
                if n in TAGS:
                    return v in TAGS[n]
    return True


def names(C, short, L, w, fn):
    R = C.R
    groups = {}
    for key, ids, conds in L.cases:
        groups.setdefault(key, []).append((ids, conds))
    import itertools
    for n, (key, alts) in enumerate(sorted(groups.items(), key=repr)):
        if not alts[0][0]:
            for ids, conds in alts:
                if conds:
                    raise Undecided("condition " + pp(conds[0])[:100])
            continue
        labs = [l for l, _ in alts[0][0]]
        sample = sorted({v for t in TAGS.values() for v in t} | {"elif"}) if short == "Node" else SAMPLE
        if len(labs) > 3:
            raise Undecided("%d names" % len(labs))
        wrong, skipped = None, None
        for vs in itertools.product(sample, repeat=len(labs)):
            got = False
            for ids, conds in alts:
                env = {o: v for (_, o), v in zip(ids, vs)}
                rs = [evcond(c, env) for c in conds]
                if False in rs:
                    continue
                if None in rs:
                    skipped = [c for c, r in zip(conds, rs) if r is None][0]
                    continue
                got = True
            if got != wanted(short, key, list(zip(labs, vs))):
                wrong = (vs, got)
                break
        if skipped is not None:
            R.undecided("names:%s" % short, "condition %s" % pp(skipped)[:150])
            continue
        R.check(wrong is None, "names:" + short, "%s %s the names %s" % ((fn, "accepts" if wrong[1] else "rejects", " and ".join("`%s`" % v for v in wrong[0])) if wrong else ("", "", "")), w)



def passed(C, L, w, fn):
    """Named arguments: only where they are allowed, none twice, and nothing but named ones behind the first."""
    R = C.R
    groups = {}
    for key, ids, conds in L.cases:
        if any(x[0] == "sym" and any(l.startswith("[0*][]") for l in x[1][1]) for x in key[1]):
            groups.setdefault(any(":NamedArgument" in l for x in key[1] if x[0] == "sym" for l in x[1][1]), []).append(conds)
    if sorted(groups) != [False, True]:
        raise Undecided("arguments")
    for named, alts in groups.items():
        for empty, fresh, flag, lv in [(*x, lv) for x in ((True, True, True), (False, True, True), (False, False, True), (True, True, False)) for lv in (0, 1, 7, 60)]:
            def known(t):
                if isinstance(t, tuple) and t and t[0] == "call":
                    n = t[1].split("::")[-1]
                    if n in ("is_empty", "insert", "len", "contains"):
                        return ("bool", {"is_empty": empty, "insert": fresh, "contains": not fresh}[n]) if n != "len" else ("int", 0 if empty else 1)
                if t == ("fld", ("param", "p1"), "0"):
                    return ("int", lv)
                if t == ("param", "p2"):
                    return ("bool", flag)
                return tuple(known(x) for x in t) if isinstance(t, tuple) else t
            got = False
            for conds in alts:
                rs = [evcond(known(c), {}) for c in settled(conds)]
                if False in rs:
                    continue
                if None in rs:
                    raise Undecided("condition " + pp(settled(conds)[rs.index(None)])[:900])
                got = True
            want = flag and fresh if named else empty
            R.check(got == want, "arguments:%s" % ("named" if named else "positional"), "%s %s a %s argument%s%s%s" % (
                fn, "accepts" if got else "rejects", "named" if named else "positional", "" if flag else " of a filter or function",
                "" if empty else " behind a named one", "" if fresh else " of the same name"), w)


def settled(conds):
    """Conditions on which node was made, decided."""
    out = []
    for c in conds:
        if c[0] == "any":
            # no other parser makes a named argument
            alts = [settle(list(a)) for a in c[1] if not any(x[0] == "is" and x[1][0] == "o" and x[2] == "NamedArgument" for x in a)]
            alts = [tuple(a) for a in alts if a is not None]
            if () not in alts:
                out.append(("any", tuple(alts)))
        elif c[0] != "not" or c[1][0] != "o" or c[2] != ("NamedArgument",):
            out.append(c)
    return out
