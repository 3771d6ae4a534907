"""The types that hold syntax trees of lifetime 'static next to their own text are owners. Their fields must be private, the text must live
on the heap, and every owner that is constructed anywhere in the parser crate must pair a tree that borrows nothing, or one parsed from the
very text value moved into the same owner afterwards, never from a copy of it or a text changed since. No function over an owner may let
a tree or text escape with a lifetime other than that of the reference to the owner it was given (in results, out parameters, callbacks or
associated types), nor change or replace the text alone. The lifetime may be extended in constructors of owners only, and the extended
text may only go to a parser that is generic over the lifetime. Client programs that keep nodes too long must be rejected by the compiler."""
import json, os, re, subprocess, tempfile
from parslib import *
from g10 import walk, pure
from mir import strip_generics

TREES = re.compile(r"\b(?:Ast|Node|Expr|Filter|Target|Lit|Comment|Call|Let|If|Match|Loop|Extends|BlockDef|Include|Import|Macro|Raw|FilterBlock|Cond|CondTest|When)\b")
HEAP = ("std::string::String", "alloc::string::String", "std::boxed::Box<str>", "std::rc::Rc<str>", "std::sync::Arc<str>", "std::vec::Vec<u8>", "std::boxed::Box<[u8]>",
        "std::rc::Rc<std::string::String>", "std::sync::Arc<std::string::String>", "std::boxed::Box<std::string::String>")
VIEWS = ("as_str", "deref", "as_ref", "borrow", "as_bytes")
COPIES = ("std::clone::Clone::clone", "str::to_owned", "str::to_string", "std::string::ToString::to_string", "std::borrow::ToOwned::to_owned", "std::string::String::from",
          "std::convert::From::from", "std::convert::Into::into", "str::into_string", "str::into_boxed_str", "std::string::String::into_boxed_str", "std::string::String::clone",
          "<std::string::String as std::clone::Clone>::clone", "std::boxed::Box::from", "std::rc::Rc::from")


def run(C):
    R = C.R
    R.floor = 15
    cr = C.P.crates[CR]
    own = owners(C)
    R.section("unsafe", lambda C: unsafe(C, own), C)
    if not own:
        return
    for name in own:
        R.section("fields:" + name, lambda C, name=name: fields_(C, name, own[name]), C)
        R.section("functions:" + name, lambda C, name=name: functions(C, name, own[name]), C)
        R.section("made:" + name, lambda C, name=name: made(C, name, own[name]), C)
    R.section("parser", parser, C)
    R.section("clients", clients, C)


def owners(C):
    """{type: (fields with trees, the other fields)}"""
    out = {}
    for n, a in C.P.crates[CR].adts.items():
        fs = [f for v in a["variants"] for f in v[1]]
        tree = [f for f in fs if re.search(r"<[^<>]*'static", f[1]) and TREES.search(f[1])]
        if tree:
            out[n] = (tree, [f for f in fs if f not in tree])
    return out


def unsafe(C, own):
    R = C.R
    n = 0
    for b in C.P.crates[CR].bodies:
        if b.raw.get("unsafe_blocks") or b.raw.get("unsafe"):
            n += 1
            if not own:
                raise Undecided("unsafe code in " + b.npath)
            makes = any(o in repr(b.blocks) for o in own)
            calls = [c for c in C.P.crates[CR].bodies for x in c.calls() if fn_name(x[1]) == b.npath]
            if not makes and not (calls and all(any(o in repr(c.blocks) for o in own) for c in calls)):
                raise Undecided("unsafe code in %s, which makes none of %s" % (b.npath, ", ".join(own)))
            R.ok("unsafe:" + b.npath)
    if not own and not n:
        # no lifetime is extended anywhere: the compiler decides
        for k in range(15):
            R.ok("safe:%d" % k)


def fn_name(f):
    return strip_generics(f[1]["fn"]) if f[0] == "k" and isinstance(f[1], dict) and "fn" in f[1] else ""


def where(a):
    return "%s:%s" % (a["file"], a["line"])


def fields_(C, name, fs):
    R = C.R
    a = C.P.crates[CR].adts[name]
    tree, rest = fs
    text = [f for f in rest if re.search(r"\b(str|String|u8)\b", f[1])]
    if len(text) != 1:
        raise Undecided("text of %s: %s" % (name, [f[0] for f in rest]))
    for f in tree + text:
        R.check(f[2] != "Public", "private:%s.%s" % (name, f[0]), "%s.%s is public: its lifetime and its text can be changed by anyone" % (name, f[0]), where(a))
    t = text[0][1]
    if re.match(r"\[u8; ", t) or "Cell" in t:
        R.bad("heap:" + name, "the text of %s moves or changes with it: %s" % (name, t), where(a))
    elif t not in HEAP:
        raise Undecided("text of %s is a %s" % (name, t))
    else:
        R.ok("heap:" + name)
    order = [f[0] for v in a["variants"] for f in v[1]]
    drops = [i["self_ty"] for i in C.P.crates[CR].impls if i["trait"] and "std::ops::Drop" in i["trait"]]
    R.check(all(order.index(f[0]) < order.index(text[0][0]) for f in tree) or not drops, "order:" + name, "the text of %s is dropped before its tree, and %s look at it when dropped" % (name, drops), where(a))


def lifetimes(t):
    return re.findall(r"'[a-z_]\w*", t)


def split_sig(s):
    """(parameter types, result type)"""
    i = s.index("fn(") + 3
    args, d, cur = [], 0, ""
    j = i
    while j < len(s):
        c = s[j]
        if c == ")" and d == 0:
            break
        if c in "(<[{":
            d += 1
        elif c in ")]}" or c == ">" and s[j - 1] != "-":
            d -= 1
        if c == "," and d == 0:
            args.append(cur.strip())
            cur = ""
        else:
            cur += c
        j += 1
    if cur.strip():
        args.append(cur.strip())
    r = s[j + 1:].strip()
    return args, r[2:].strip() if r.startswith("->") else "()"


def over(C, name):
    """The functions over an owner."""
    for b in C.P.crates[CR].bodies:
        if b.kind in ("Fn", "AssocFn") and b.sig and re.search(r"\b%s\b" % re.escape(name.split("::")[-1]), str(b.sig) + " " + str(b.selfty or "") + " ".join(b.raw.get("preds", ()))):
            yield b


def functions(C, name, fs):
    R = C.R
    cr = C.P.crates[CR]
    names = {f[0] for f in fs[0]} | {f[0] for f in fs[1]}
    n = 0
    short = name.split("::")[-1]
    for b in over(C, name):
        n += 1
        args, ret = split_sig(str(b.sig))
        ok_ = set()
        for x in args:
            for m in re.finditer(r"&('\w+) (?:mut )?(?:[\w:]+::)?%s\b" % short, x):
                ok_.add(m.group(1))
        key = b.npath
        public = b.vis == "Public" or b.trait is not None

        def judge(t, what):
            """A type through which trees or text may get out."""
            if not (TREES.search(t) or re.search(r"&'\w+ (mut )?(str|\[u8\])", t)):
                return True
            bad = [x for x in lifetimes(t) if x not in ok_]
            if bad and not public:
                raise Undecided("%s of the private function %s has the lifetime %s" % (what, b.npath, bad[0]))
            return R.check(not bad, "%s:%s" % (what, key), "%s of %s is %s: %s is not the lifetime of the owner it comes from" % (what, b.npath, t[:120], ", ".join(sorted(set(bad)))), b.where())
        if " as " in ret and "::" in ret.split(" as ")[-1].split(">")[-1]:
            # an associated type: of this implementation
            for i in cr.impls:
                if i["items"] and b.path in i["items"]:
                    for nm, t in i["types"]:
                        judge(t, "associated type")
                    if not i["types"]:
                        raise Undecided("result of %s: %s" % (b.npath, ret))
        else:
            judge(ret, "result")
        for x in args:
            if re.match(r"&('\w+ )?mut ", x) and not re.search(r"mut (?:[\w:]+::)?%s\b" % short, x):
                judge(x, "out parameter")
        for p in b.raw.get("preds", ()):
            if re.search(r"\bFn(Once|Mut)?\(|\bFn(Once|Mut)?<", p) or "FnOnce" in p or "FnMut" in p or ": std::ops::Fn" in p:
                hr = set(re.findall(r"'\w+", (re.match(r"for<([^>]*)>", p) or re.match("()", "")).group(1) or ""))
                bad = [x for x in lifetimes(p) if x not in ok_ and x not in hr and x != "'_"]
                if TREES.search(p) or "str" in p:
                    R.check(not bad, "callback:" + key, "a callback of %s is given a tree with the lifetime %s" % (b.npath, ", ".join(sorted(set(bad)))), b.where())
        changes(C, b, name, fs, names)
    if not n:
        raise Undecided("no function over " + name)


def changes(C, b, name, fs, names):
    """Fields of the owner that are borrowed mutably or assigned in a function."""
    R = C.R
    hit = {}
    own = {i for i, l in enumerate(b.locals) if re.search(r"\b%s\b" % name.split("::")[-1], str(l[0]))}
    if not own:
        return
    for bl in b.blocks:
        for s in bl["s"]:
            dst, rv = s[0], s[1]
            for pl, how in ((dst, "assigned"), (rv[2] if rv[0] == "ref" and rv[1] != "shared" else None, "borrowed mutably"), (rv[2] if rv[0] in ("addr", "rawptr") and len(rv) > 2 else None, "borrowed mutably")):
                if pl and isinstance(pl, list) and len(pl) == 2 and pl[0] in own:
                    f = [p[2] for p in pl[1] if isinstance(p, list) and p[0] == "f" and len(p) > 2]
                    if f and f[0] in names:
                        hit.setdefault(f[0], how)
    trees = {f[0] for f in fs[0]}
    for f, how in hit.items():
        if set(hit) & trees and set(hit) - trees:
            raise Undecided("%s changes both the tree and the text" % b.npath)
        R.bad("change:%s:%s" % (b.npath, f), "%s.%s is %s in %s" % (name, f, how, b.npath), b.where())
    if not hit:
        R.ok("change:" + b.npath)


def copied(n):
    def h(E, fr, st, a, line):
        x = E.norm(st, a[0])
        return [(st, ("call", "@copy", (x, ("str", "%s:%s" % (fr.body.npath, line)))))]
    return h


def extend(E, st, v, kind, ty):
    """A reference whose lifetime is changed: a view of what it refers to now."""
    if kind == "Transmute" and ty.startswith("&"):
        return ("call", "@extend", (now(E, st, v),))


def now(E, st, v):
    n = 0
    while n < 20:
        n += 1
        if v[0] == "ref":
            v = E.deref(st, v)
        elif v[0] == "call" and v[1].split("::")[-1] in VIEWS and len(v[2]) == 1:
            v = v[2][0]
        else:
            break
    return E.norm(st, v)


def parse(E, fr, st, a, line):
    return [(st, ("call", "@parse", (now(E, st, a[0]),) + tuple(E.norm(st, x) for x in a[1:])))]


def made(C, name, fs):
    R = C.R
    cr = C.P.crates[CR]
    tree = [f[0] for f in fs[0]]
    text = [f[0] for f in fs[1] if re.search(r"\b(str|String|u8)\b", f[1])]
    short = name.split("::")[-1]
    n = 0
    for b in cr.bodies:
        if b.kind not in ("Fn", "AssocFn"):
            continue
        if not any(s[1][0] == "agg" and s[1][1][0] == "adt" and s[1][1][1] == name for c in [b] + [x for x in cr.bodies if x.npath.startswith(b.npath + "::{closure")] for bl in c.blocks for s in bl["s"]):
            continue
        n += 1
        V = {"Ast::from_str": parse}
        V.update({c: copied(c) for c in COPIES})
        E = C.engine(CR, vocab=V)
        E.on_cast = extend
        for st, rv in C.run(E, b):
            rv = E.norm(st, rv)
            got = {x for x in walk((rv, tuple(st.ev))) if isinstance(x, tuple) and is_agg(x) and x[1] == name}
            for x in got:
                f = dict(x[3])
                check_made(C, b, E, st, f, tree, text, name)
            # the text must not get out otherwise
            if "@extend" in repr(rv):
                out = [x for x in escapes(rv) if x]
                R.check(not out, "extended:" + b.npath, "text of extended lifetime gets out of %s" % b.npath, b.where())
    R.check(n > 0, "made:" + name, "%s is constructed" % name, "")


def escapes(t):
    """Extended texts outside of what is parsed."""
    if not isinstance(t, tuple):
        return
    if t[:2] == ("call", "@parse"):
        return
    if t[:2] == ("call", "@extend"):
        yield True
    for x in t:
        yield from escapes(x)


def text_of(t):
    """The value a view is a view of."""
    while True:
        if t[0] == "ref":
            t = t[1]
        elif t[:2] == ("call", "@extend"):
            t = t[2][0]
        elif t[0] == "call" and t[1].split("::")[-1] in VIEWS and len(t[2]) == 1:
            t = t[2][0]
        else:
            return t


def check_made(C, b, E, st, f, tree, text, name):
    R = C.R
    src = E.norm(st, f[text[0]])
    key = b.npath
    for k in tree:
        v = E.norm(st, f[k])
        ext = {x for x in walk(v) if isinstance(x, tuple) and x[:2] in (("call", "@extend"), ("call", "@parse"))}
        old = {x for x in walk(v) if isinstance(x, tuple) and len(x) == 3 and x[0] == "fld" and x[2] in tree}
        if ext:
            for x in ext:
                base = text_of(x[2][0])
                same = base == src or base[0] == "str"
                R.check(same, "made:" + key, "the tree made in %s borrows from %s, the text kept is %s" % (key, pp(base)[:60], pp(src)[:60]), b.where())
        elif old:
            for x in old:
                own = x[1]
                R.check(src == ("fld", own, text[0]) and not (own[0] == "param" and "&" in str(b.locals[int(own[1][1:]) + 1][0])), "made:" + key,
                        "the tree of one %s is given to another in %s, whose text is %s" % (name, key, pp(src)[:60]), b.where())
        elif v[0] == "agg" and v[3] and all(x[1] in (("vec", ()), ("arr", ())) or is_agg(x[1]) and not x[1][3] for x in v[3]) or v[0] == "call" and v[1].endswith("default") and not v[2]:
            R.ok("made:" + key)
        else:
            raise Undecided("tree made in %s: %s" % (key, pp(v)[:100]))


def parser(C):
    """The function the extended text is given to."""
    R = C.R
    b = C.body(CR, "Ast::from_str")
    args, ret = split_sig(str(b.sig))
    lts = [m.group(1) for x in args for m in [re.match(r"&('\w+) str$", x)] if m]
    if len(lts) != 1:
        raise Undecided("parameters of Ast::from_str: %s" % ", ".join(args))
    m = re.match(r"std::result::Result<(.*), ([^,]*)>$", ret)
    if not m:
        raise Undecided("result of Ast::from_str: " + ret)
    R.check(lts[0] != "'static", "parser:generic", "Ast::from_str takes text of any lifetime: %s" % lts[0], b.where())
    R.check(set(lifetimes(m.group(1))) == {lts[0]}, "parser:tree", "the tree has the lifetime of the text: %s" % m.group(1), b.where())
    R.check(not set(lifetimes(m.group(2))), "parser:error", "the error borrows nothing: %s" % m.group(2), b.where())
    e = C.P.crates[CR].adts.get(strip_generics(m.group(2)))
    if e is None:
        raise Undecided("error type " + m.group(2))
    R.check(not [f for v in e["variants"] for f in v[1] if [x for x in lifetimes(f[1]) if x != "'static"]], "parser:error:fields", "the error borrows nothing", where(e))


GOOD = "pub fn f(p: &askama_parser::Parsed) -> &[askama_parser::Node<'_>] { p.nodes() }"
BAD = {
    "static nodes": "pub fn f(p: &askama_parser::Parsed) -> &[askama_parser::Node<'static>] { p.nodes() }",
    "static text": "pub fn f(p: &askama_parser::Parsed) -> Option<&'static str> { match p.nodes().first()? { askama_parser::Node::Lit(l) => Some(l.val), _ => None } }",
    "returned nodes": "pub fn f(p: askama_parser::Parsed) -> Vec<askama_parser::Node<'static>> { let n = p.nodes(); n.iter().map(|_| todo!()).chain(std::iter::empty::<askama_parser::Node<'static>>()).collect::<Vec<_>>(); keep(n) }\nfn keep<'a>(_: &'a [askama_parser::Node<'a>]) -> Vec<askama_parser::Node<'a>> { todo!() }",
    "moved owner": "pub fn f(p: askama_parser::Parsed) -> (askama_parser::Parsed, usize) { let n = p.nodes(); let q = p; let l = n.len(); (q, l) }",
    "dropped owner": "pub fn f(p: askama_parser::Parsed) -> usize { let n = p.nodes(); drop(p); n.len() }",
    "replaced owner": "pub fn f(p: &mut askama_parser::Parsed, q: askama_parser::Parsed) -> usize { let n = p.nodes(); *p = q; n.len() }",
}


def clients(C):
    """Client programs that must be rejected."""
    R = C.R
    import facts
    env = dict(os.environ)
    for k in ("RUSTC_WORKSPACE_WRAPPER", "RUSTC_WRAPPER", "RUSTFLAGS"):
        env.pop(k, None)
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--target-dir", os.path.join(facts.CACHE, "witness"), "-p", "askama_parser", "--message-format=json"],
                       cwd=facts.REPO, env=env, capture_output=True, text=True)
    lib, dirs = None, set()
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            dirs |= {os.path.dirname(f) for f in m["filenames"]}
        if m.get("reason") == "compiler-artifact" and m.get("target", {}).get("name") == "askama_parser" and "lib" in m["target"]["kind"]:
            lib = [f for f in m["filenames"] if f.endswith(".rmeta")][0]
    if lib is None:
        raise Undecided("the parser crate could not be checked: %s" % r.stderr[-200:])

    def compiles(src):
        with tempfile.TemporaryDirectory() as d:
            open(os.path.join(d, "w.rs"), "w").write(src)
            return subprocess.run(["rustc", "+nightly", "--edition=2021", "--crate-type=lib", "--emit=metadata", *[x for d2 in sorted(dirs) for x in ("-L", "dependency=" + d2)],
                                   "--extern", "askama_parser=" + lib, "-o", os.path.join(d, "w.rmeta"), os.path.join(d, "w.rs")], env=env, capture_output=True, text=True)
    if compiles(GOOD).returncode != 0:
        raise Undecided("a correct client is rejected as well: %s" % compiles(GOOD).stderr[:300])
    b = C.P.crates[CR].by.get("_parsed::Parsed::nodes")
    for k, src in BAD.items():
        r = compiles(src)
        R.check(r.returncode != 0, "client:" + k, "a client that keeps %s is accepted" % k, b.where() if b else "")
