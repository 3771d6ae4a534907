"""On every abstract path of the conversions of the four web crates, the response returned is folded from its builder calls into
status, headers and body. If rendering succeeded and the builder did not fail, the status must be a success, the only content
type the template's own MIME_TYPE and the body exactly the rendered text (with its length, if one is set); otherwise the status
must be an error. The code generated for each framework must implement the framework's trait, for the template's type with its
generics, by exactly one call of the total conversion. MIME_TYPE must be the type of the extension given or else of the path's
extension, without the suffix of a template engine, text types with their character set."""
import re
from conflib import *
import e04

SUCCESS = range(200, 300)
TRAITS = {"axum": ("::askama_axum::axum_core::response::IntoResponse", ("into_response",)),
          "actix": ("::askama_actix::actix_web::Responder", ("into_response",)),
          "rocket": ("::askama_rocket::rocket::response::Responder", ("respond",)),
          "warp": ("::askama_warp::warp::reply::Reply", ("into_response",))}
JINJA = ("j2", "jinja", "jinja2")


def run(C):
    R = C.R
    R.floor = 60
    for tag in TRAITS:
        R.section("response:" + tag, responses, C, tag)
        R.section("impl:" + tag, generated, C, tag)
    R.section("mime", mime_arg, C)
    R.section("extension", ext_fn, C)
    R.section("table", table, C)
    R.section("emit", emitted, C)


class Resp:
    """A response as far as it matters here."""

    def __init__(self):
        self.status, self.types, self.body, self.len = 200, [], None, None


def status_of(t):
    if t[0] == "int":
        return t[1]
    if t[0] == "call" and t[1].split("::")[-1] in ("from_u16", "new", "from_code", "from", "into") and t[2] and t[2][0][0] == "int":
        return t[2][0][1]
    if t[0] == "fld" and t[1][0] == "as" and t[1][1][0] == "call":
        return status_of(t[1][1])
    raise Undecided("status %s" % pp(t)[:60])


def header_name(t):
    if t[0] == "str":
        return t[1].lower()
    if t[0] == "agg":
        v = [x[2] for x in walk(t) if isinstance(x, tuple) and x[:1] == ("agg",) and "StandardHeader" in str(x[1])]
        if v:
            return v[0].replace("ContentType", "content-type").lower()
    if t[0] == "call" and t[1].split("::")[-1] in ("from_static", "new", "from", "into", "from_bytes") and t[2]:
        return header_name(t[2][0])
    if t[0] == "agg" and t[2] == "ContentType":
        return "content-type"
    raise Undecided("header %s" % pp(t)[:60])


def header_value(t):
    while t[0] == "call" and t[1].split("::")[-1] in ("from_static", "from", "into", "from_str", "new", "to_owned") and len(t[2]) == 1:
        t = t[2][0]
    if t[0] == "fld" and t[1][0] == "as" and t[1][2] in ("Ok", "Some") and t[1][1][0] == "call":
        return header_value(t[1][1])
    return t


def body_of(t):
    while t[0] == "call" and len(t[2]) == 1 and t[1].split("::")[-1] in ("from", "into", "new", "boxed", "into_bytes", "into_boxed_str", "into_boxed_bytes", "full"):
        t = t[2][0]
    return t


def fold(C, tag, t):
    """Resp for a response value (or Result of one) of the framework."""
    if is_agg(t, "Ok"):
        return fold(C, tag, dict(t[3])["0"])
    if is_agg(t, "Err"):
        return fold(C, tag, dict(t[3])["0"])
    if t[0] == "int":   # rocket: Err(Status)
        r = Resp()
        r.status = t[1]
        return r
    if t[0] == "fld" and t[1][0] == "as" and t[1][2] == "Ok" and t[2] == "0":
        return fold(C, tag, t[1][1])
    if is_agg(t) and t[1] == "tuple":
        fs = [v for _, v in t[3]]
        r = Resp()
        st = [v for v in fs[:1] if v[0] == "int"]
        if st:
            r.status = st[0][1]
        for v in fs[len(st):-1]:
            for k, x in headers_of(v):
                if k == "content-type":
                    r.types.append(x)
        if len(fs) > 1 or not st:
            last = fs[-1]
            if last[0] == "call" and last[1].split("::")[-1] in ("body", "finish", "finalize", "into_response"):
                r2 = fold(C, tag, last)
                r2.status = r.status if st else r2.status
                r2.types += r.types
                return r2
            r.body = body_of(last)
        return r
    if t[0] != "call":
        raise Undecided("response %s" % pp(t)[:80])
    n, a = t[1], t[2]
    s = n.split("::")[-1]
    if tag == "axum" and s in ("into_response", "from", "into") and len(a) == 1 and error_value(a[0]):
        r = Resp()   # a text
        r.body = a[0]
        return r
    if s in ("into_response", "from", "into", "map_into_boxed_body", "into_body", "ok") and len(a) == 1:
        if s in ("into_response",) and not (is_agg(a[0]) or a[0][0] in ("call", "fld")):
            r = Resp()
            r.body = body_of(a[0])
            return r
        return fold(C, tag, a[0])
    if s in ("builder", "build") and not a:
        return Resp()
    if s in ("new", "build") and len(a) == 1:
        r = Resp()
        try:
            r.status = status_of(a[0])
        except Undecided:
            r.body = body_of(a[0])
        return r
    if not a and "actix_web" in n and s[:1].isupper():
        known = {"Ok": 200, "InternalServerError": 500, "BadRequest": 400, "NotFound": 404, "ServiceUnavailable": 503, "NoContent": 204, "Created": 201, "Accepted": 202}
        r = Resp()
        if s not in known:
            raise Undecided("response %s" % n)
        r.status = known[s]
        return r
    if s in ("from_error", "error_response") and len(a) == 1:
        r = Resp()
        r.status = error_status(C, tag, a[0])
        return r
    if s in ("status", "header", "insert_header", "append_header", "raw_header", "raw_header_adjoin", "header_adjoin", "content_type", "body", "sized_body", "message_body", "finalize", "finish",
             "streamed_body", "raw_status"):
        r = fold(C, tag, a[0])
        if s in ("status", "raw_status"):
            r.status = status_of(a[1])
        elif s == "content_type":
            r.types = [header_value(a[1])]
        elif s in ("header", "insert_header", "append_header", "raw_header", "raw_header_adjoin", "header_adjoin"):
            for k, v in headers_of(a[1]) if len(a) == 2 else [(header_name(a[1]), header_value(a[2]))]:
                if k == "content-type":
                    # http's and actix's append, the setters replace
                    append = s in ("append_header", "raw_header_adjoin", "header_adjoin") or s == "header" and tag in ("axum", "warp")
                    r.types = (r.types if append else []) + [v]
        elif s in ("body", "message_body", "streamed_body"):
            r.body = body_of(a[1])
        elif s == "sized_body":
            r.len, r.body = a[1], body_of(a[2])
        return r
    raise Undecided("response %s" % pp(t)[:80])


def error_value(t):
    return t[0] == "fld" and t[1][0] == "as" and t[1][2] == "Err" or is_agg(t) and t[1] == "askama::Error"


def headers_of(t):
    """[(name, value)] of a header value."""
    if is_agg(t) and t[1] == "tuple" and len(t[3]) == 2:
        return [(header_name(t[3][0][1]), header_value(t[3][1][1]))]
    if t[0] == "call" and t[1].split("::")[-1] == "new" and len(t[2]) == 2:
        return [(header_name(t[2][0]), header_value(t[2][1]))]
    if t[0] == "call" and t[1].split("::")[-1] in ("from", "into") and len(t[2]) == 1:
        return headers_of(t[2][0])
    if t[0] in ("arr", "vec"):
        return [h for x in t[1] for h in headers_of(x)]
    raise Undecided("header %s" % pp(t)[:80])


def error_status(C, tag, v):
    """Status of an error handed to actix: the type's own status_code and error_response, or the default of 500."""
    if v[0] == "call" and len(v[2]) == 1 and v[1].split("::")[-1] in ("into", "from"):
        return error_status(C, tag, v[2][0])
    if v[0] == "call" and v[1].startswith("actix_web::error::Error"):
        s = v[1].split("::")[-1]
        if s == "ErrorInternalServerError":
            return 500
        raise Undecided("error %s" % v[1])
    if not is_agg(v):
        raise Undecided("error value %s" % pp(v)[:60])
    P = C.integ(tag)
    out = 500
    for b in P.crates["askama_" + tag].bodies:
        if b.npath.startswith("<%s as actix_web::ResponseError>::" % v[1].split("::")[-1]):
            E = C.engine("askama_" + tag, prog=P)
            for st, rv in C.run(E, b):
                if b.npath.endswith("::status_code"):
                    out = status_of(rv)
                    if out not in range(400, 600):
                        return out
                elif b.npath.endswith("::error_response"):
                    out = fold(C, tag, rv).status
                    if out not in range(400, 600):
                        return out
    return out


def render(E, fr, st, a, line):
    return [(st, ("call", "render", (E.norm(st, a[0]),)))]


def responses(C, tag):
    R = C.R
    P = C.integ(tag)
    crate = P.crates["askama_" + tag]
    fns = [b for b in crate.bodies if b.kind == "Fn" and any("Template" in str(x) for x in [b.npath] + [str(getattr(b, "sig", ""))])] or [b for b in crate.bodies if b.kind == "Fn"]
    names = {b.npath for b in fns}
    for need in TRAITS[tag][1]:
        if need not in names:
            raise Missing("askama_%s::%s" % (tag, need))
    for b in fns:
        R.section("response:%s:%s" % (tag, b.npath), one_fn, C, tag, P, b)


def one_fn(C, tag, P, b):
    R = C.R
    E = C.engine("askama_" + tag, prog=P, vocab={"askama::Template::render": render})
    REND = ("call", "render", (("param", "p0"),))
    where = b.where()
    k = "response:%s:%s" % (tag, b.npath)
    n = {"ok": 0, "err": 0}
    for st, rv in C.run(E, b):
        rv = E.norm(st, rv)
        ren = {c[1]: c[2] for c in st.conds if c[0] == "is" and c[1][0] == "call" and c[1][1].split("::")[-1] in ("render", "render_into", "write_into", "dyn_render")}
        if not ren:
            # no decision about rendering: a function of the result alone, or one that ignores it
            if not any(isinstance(x, tuple) and x == REND for x in walk(rv)) and not st.ev:
                R.bad(k + ":render", "a response is made without rendering the template", where)
                continue
            if rv == REND:
                continue
            if is_agg(rv, "Err") or fold(C, tag, rv).status not in SUCCESS:
                raise Undecided("%s does not look at the result of rendering" % b.npath)
            R.bad(k + ":error", "the response is a success whether or not the template rendered: %s" % pp(rv)[:100], where)
            continue
        others = [c for c in st.conds if c[0] == "is" and c[1] not in ren and c[2] == "Err" and c[1][0] == "call"]
        good = all(v == "Ok" for v in ren.values()) and not others
        if not good:
            n["err"] += 1
            if is_agg(rv, "Err") and not crate_status(b, rv):
                R.ok(k + ":error")
                continue
            r = fold(C, tag, rv)
            R.check(r.status in range(400, 600), k + ":error", "a failure of the template or the builder is answered with an error status, not %s" % r.status, where)
            continue
        n["ok"] += 1
        if is_agg(rv, "Err") or rv[0] == "fld" and rv[1][0] == "as" and rv[1][2] == "Err":
            R.bad(k + ":ok", "a template that renders gives a response: %s" % pp(rv)[:80], where)
            continue
        r = fold(C, tag, rv)
        R.check(r.status in SUCCESS, k + ":status", "a template that renders is answered with a success, not %s" % r.status, where)
        R.check(len(r.types) == 1, k + ":types", "there is one content type: %s" % [pp(x)[:50] for x in r.types], where)
        R.check(r.types[-1:] == [("const", "askama::Template::MIME_TYPE")], k + ":type", "the content type is that of the template: %s" % [pp(x)[:60] for x in r.types], where)
        t = [x for x in ren]
        text = r.body is not None and (r.body == okof(REND) or any(x[1].split("::")[-1] != "render" and rendered(x, r.body) for x in t))
        R.check(text, k + ":body", "the body is the rendered text: %s" % pp(r.body or ("str", "none"))[:80], where)
        if r.len is not None and not is_agg(r.len, "None"):
            l = r.len
            if is_agg(l, "Some"):
                l = dict(l[3])["0"]
            R.check(l == ("lenof", r.body), k + ":length", "the length is that of the body: %s" % pp(l)[:60], where)
    R.check(n["ok"] and n["err"], k + ":both", "both outcomes of rendering are handled", where)


def crate_status(b, rv):
    """Is the Err payload a status (rocket's Result)?"""
    v = dict(rv[3])["0"]
    return v[0] == "int"


def rendered(call, body):
    """Is body the buffer that the template was rendered into?"""
    a = call[2]
    return len(a) > 1 and (body == a[1] or body[0] == "mut" and body[1] == a[1] or a[1][0] == "code" and body[0] in ("code", "mut"))


def generated(C, tag):
    """The impl that the derive macro writes for the framework."""
    R = C.R
    D = Ctx(C.R.pid if hasattr(C.R, "pid") else "W01", C.tier)
    D.R, D._p = C.R, C.integ(tag)
    b = D.body("askama_derive", GEN + "build")
    E = engine(D, max_depth=4, extra={GEN + "impl_template": v_nopok, GEN + "impl_display": v_nopok})
    trait, fns = TRAITS[tag]
    AST = ("fld", ("fld", ("param", "p0"), "input"), "ast")
    n = 0
    for st, rv in run_gen(D, E, b, bufs=()):
        if is_agg(rv, "Err"):
            continue
        if not is_agg(rv, "Ok"):
            raise Undecided("result %s" % pp(rv)[:60])
        v = E.norm(st, dict(rv[3])["0"])
        if v[0] != "code":
            raise Undecided("generated text %s" % pp(v)[:60])
        n += 1
        where = b.where()
        holes = [x[1] for x in v[1] if x[0] == "h"]
        src = nows("".join(x[1] if x[0] == "s" else "⟦%d⟧" % holes.index(x[1]) for x in v[1]))
        k = "impl:" + tag
        if not R.check(src.count(nows(trait)) >= 1, k + ":trait", "%s is implemented: %s" % (trait, src[:120]), where):
            continue
        m = re.search(r"impl⟦(\d+)⟧" + re.escape(nows(trait)) + r"(<[^{]*?>)?for⟦(\d+)⟧⟦(\d+)⟧⟦(\d+)⟧\{(.*)$", src)
        if not m:
            raise Undecided("header of the impl: %s" % src[:120])
        hs = [holes[int(m.group(i))] for i in (1, 3, 4, 5)]
        R.check(hs[1] == ("fld", AST, "ident"), k + ":ident", "for the type of the template: %s" % pp(hs[1])[:60], where)
        for h, i in ((hs[0], "0"), (hs[2], "1"), (hs[3], "2")):
            if not (h[0] == "fld" and h[1][0] == "call" and h[1][1].endswith("split_for_impl")):
                raise Undecided("generics %s" % pp(h)[:80])
            R.check(h[2] == i and base_upd(h[1][2][0]) == ("fld", AST, "generics"), k + ":generics", "with its generics: %s" % pp(h)[:80], where)
        R.check(hs[2][1][2][0] == ("fld", AST, "generics"), k + ":type-generics", "the type takes exactly its own generics: %s" % pp(hs[2])[:80], where)
        fn = re.findall(r"fn(\w+)\(([^{]*)\{([^{}]*)\}", m.group(6))
        if len(fn) != 1:
            raise Undecided("methods of the impl: %s" % m.group(6)[:100])
        body = fn[0][2]
        c = re.fullmatch(r"(?:return)?::askama_%s::(\w+)\(&?self\);?" % tag, body)
        okb = c and c.group(1) in fns
        if not c:
            if tag == "rocket" and re.fullmatch(r"(::std::result::Result::)?Ok\(::askama_rocket::into_response\(&?self\)\)", body):
                okb = True
            elif not re.search(r"unwrap|expect|to_string|\.ok\(\)|render\(", body):
                raise Undecided("body of the method: %s" % body[:80])
        R.check(okb, k + ":call", "the response is that of the conversion: %s" % body[:80], where)
    if not n:
        raise Undecided("no successful path")


def base_upd(t):
    while t[0] in ("upd", "mut"):
        t = t[1]
    return t


def ext_calls(conds, val):
    """Path::extension and to_str calls in the conditions and the value."""
    out = {}
    for t in [x for c in conds for x in walk(c)] + list(walk(val)):
        if isinstance(t, tuple) and t[:1] == ("call",) and t[1] in ("std::path::Path::extension", "std::path::Path::file_stem"):
            out.setdefault(t[2][0], set()).add(t[1].split("::")[-1])
    return out


def check_ext(C, k, paths, EXT, where, unwrap=None, partial=None):
    """paths: [(conds, value)]: the value must be the given extension, or that of the path without an engine's suffix."""
    R = C.R
    pe, fs = "std::path::Path::extension", "std::path::Path::file_stem"
    n = 0
    names = set(JINJA)
    for conds, val, p in paths:
        for x in [x for c in conds for x in walk(c)]:
            if isinstance(x, tuple) and x[:1] == ("str",):
                names.add(x[1])
    for given in ((None, "given") if EXT else (None,)):
        for own in [None] + sorted(names) + ["\0other"]:
            for inner in (None, "\0inner"):
                if own is None and inner:
                    continue
                want = given or (inner if own in JINJA and inner else own)
                got = []
                for conds, val, p in paths:
                    stem = ("call", "std::path::Path::new", (someof(("call", fs, (p,))),))
                    env = {}
                    if EXT:
                        env[EXT] = ("agg", "Some" if given else "None")
                        env[someof(EXT)] = given or ""
                    for base, e in ((p, own), (stem, inner), (someof(("call", fs, (p,))), inner)):
                        x = ("call", pe, (base,))
                        y = ("call", "std::ffi::OsStr::to_str", (someof(x),))
                        env[x] = env[y] = ("agg", "Some" if e is not None else "None")
                        env[y] = ("agg", "Some")
                        env[someof(y)] = env[someof(x)] = "\0none" if e is None else e
                    env[("call", fs, (p,))] = ("agg", "Some")
                    for c in [x for c in conds for x in walk(c)]:
                        if isinstance(c, tuple) and c[:1] == ("call",) and c[1].split("::")[-1] == "contains" and len(c[2]) == 2 and c[2][1] in env:
                            try:
                                env[c] = env[c[2][1]] in tplain(c[2][0])
                            except Undecided:
                                try:
                                    env[c] = env[c[2][1]] in const_of(C, c[2][0])
                                except Undecided:
                                    pass
                    rel = [c for c in conds if c[0] in ("is", "not", "t", "any") and any(x in env for x in walk(c) if isinstance(x, tuple)) and not any(
                        isinstance(x, tuple) and x[:1] == ("elem",) for x in walk(c))]
                    rs = [evcond(c, env) for c in rel]
                    if False in rs:
                        continue
                    if None in rs:
                        raise Undecided("condition on the extension: %s" % pp(rel[rs.index(None)])[:100])
                    if unwrap:
                        val = unwrap(val)
                    try:
                        if is_agg(val, "None"):
                            g = None
                        elif is_agg(val, "Some"):
                            g = ev(dict(val[3])["0"], env)
                        elif val in env and isinstance(env[val], tuple):
                            g = env[someof(val)] if env[val][1] == "Some" else None
                        else:
                            g = ev(val, env)
                    except NoVal as x:
                        raise Undecided("extension %s" % pp(val)[:80])
                    got.append(g)
                if not got and partial is not None:
                    continue
                if partial is not None:
                    partial.add((given, own, inner))
                if not got:
                    raise Undecided("no path for given=%s own=%s inner=%s" % (given, own, inner))
                n += 1
                w = want if want is not None or not unwrap else "txt"
                kind = "%s:%s" % ("given" if given else "path", "none" if own is None else "engine" if own in JINJA else "plain")
                R.check(all(g == w for g in got), k + ":" + kind, "given=%s, extension=%s before it=%s counts as %s, must be %s" % (given, own, inner, sorted(map(str, set(got))), w), where)
    return n


def ext_fn(C):
    b = C.body("askama_derive", "input::TemplateInput::extension")
    E = C.engine("askama_derive", max_depth=3)
    P = ("fld", ("param", "p0"), "path")
    ps = [(st.conds, E.norm(st, rv), P) for st, rv in C.run(E, b)]
    check_ext(C, "extension", ps, ("fld", ("param", "p0"), "ext"), b.where())


def mime_arg(C):
    """The MIME type is looked up for the extension."""
    R = C.R
    b, ps = e04.input_paths(C)
    where = b.where()
    EXT = ("fld", ("param", "p2"), "ext")
    by = {}
    for conds, evs, rv, st in ps:
        if not is_agg(rv, "Ok"):
            continue
        d = dict(dict(rv[3])["0"][3])
        m = d["mime_type"]
        if m[0] == "call" and m[1].split("::")[-1] in ("to_string", "to_owned", "from", "into") and len(m[2]) == 1:
            m = m[2][0]
        if not (m[0] == "call" and m[1] == "mime"):
            R.bad("mime:value", "the MIME type is looked up by extension: %s" % pp(m)[:80], where)
            continue
        p = d["path"]
        bases = {x for x in ext_calls(conds, m[2][0]) if x[0] != "call" or x[1] != "std::path::Path::new"} - {p}
        if bases:
            if not any(isinstance(x, tuple) and x == p for y in bases for x in walk(y)) and not all(mentions(c, y) for y in bases for c in conds if c[0] == "iter"):
                pass
            raise Undecided("extension of %s, path %s" % ([pp(x)[:40] for x in bases], pp(p)[:40]))
        by.setdefault(p, []).append((conds, m[2][0], p))
    if not by:
        raise Undecided("no successful path")
    seen = set()
    for p, l in sorted(by.items(), key=str):
        check_ext(C, "mime", l, EXT, where, unwrap=lambda v: v, partial=seen)
    if len(seen) < 10:
        raise Undecided("only %d cases of extensions" % len(seen))


def table(C):
    """extension_to_mime_type: the guess by extension, text types with their character set."""
    R = C.R
    b = C.body("askama_derive", "input::extension_to_mime_type")
    E = C.engine("askama_derive", max_depth=3)
    where = b.where()
    G = [x for st, rv in C.run(E, b) for c in (rv,) + st.conds for x in walk(c) if isinstance(x, tuple) and x[:1] == ("call",) and x[1].startswith("mime_guess::") and not any(
        isinstance(y, tuple) and y[:1] == ("call",) and y[1] == "mime_guess::MimeGuess::first_or_octet_stream" and x in y[2] for y in walk((rv,) + st.conds))]
    basic = set(G)
    if len(basic) != 1:
        raise Undecided("guesses %s" % [pp(x)[:60] for x in basic])
    basic = basic.pop()
    if basic[1].split("::")[-1] not in ("first_or_octet_stream",) or basic[2][0][0] != "call":
        raise Undecided("guess %s" % pp(basic)[:60])
    g = basic[2][0]
    R.check(g[1].split("::")[-1] == "from_ext" and g[2] == (("param", "p0"),), "table:guess", "the type is guessed from the extension: %s" % pp(g)[:60], where)
    n = 0
    for st, rv in C.run(E, b):
        rv = E.norm(st, rv)
        its = [c for c in st.conds if c[0] == "iter"]
        if len(its) != 1:
            raise Undecided("paths of the lookup")
        src = its[0][1]
        n += 1
        if its[0][2] in ("end", "none-found"):
            R.check(rv == basic, "table:default", "a type that is not in the table stays as it is: %s" % pp(rv)[:60], where)
            continue
        el = ("elem", src)
        if len(its[0]) > 3:
            raise Undecided("order of the table")
        eq = [c for c in st.conds if c[0] == "t" and c[1] in (("eq", basic, ("fld", el, "0")), ("eq", ("fld", el, "0"), basic))]
        R.check(bool(eq) and eq[0][2], "table:match", "an entry counts if it has the type: %s" % [pp(c)[:60] for c in st.conds if c[0] == "t"], where)
        R.check(rv == ("fld", el, "1"), "table:value", "its second part is the answer: %s" % pp(rv)[-60:], where)
        if src[0] != "arr":
            raise Undecided("table %s" % pp(src)[:60])
        rows = []
        for x in src[1]:
            s = [[y[1] for y in walk(f) if isinstance(y, tuple) and y[:1] == ("str",)] for _, f in x[3]]
            if [len(z) for z in s] != [1, 1]:
                raise Undecided("entry %s" % pp(x)[:60])
            rows.append((s[0][0], s[1][0]))
        for a, c in rows:
            R.check(c.split(";")[0] == a, "table:entry:" + a, "the entry for %s keeps the type: %s" % (a, c), where)
        have = dict(rows)
        for a in ("text/plain", "text/html", "text/css", "text/csv", "application/javascript"):
            R.check(have.get(a, "").lower().replace(" ", "").endswith("charset=utf-8"), "table:charset:" + a, "%s is sent with its character set: %s" % (a, have.get(a)), where)
    if n < 2:
        raise Undecided("only %d paths" % n)


def emitted(C):
    """const MIME_TYPE and const EXTENSION of the generated impl."""
    R = C.R
    b, ps = template_paths(C)
    where = b.where()
    INP = ("fld", ("param", "p0"), "input")
    n = 0
    for conds, evs, rv in ps:
        if not is_agg(rv, "Ok"):
            continue
        toks = [t for e in evs if e[0] == "op" and e[1] == "emit" for t in e[3]]
        s, holes = "", []
        for t in toks:
            if t[0] == "s":
                s += t[1]
            else:
                s += "⟦%d⟧" % len(holes)
                holes.append(t)
        n += 1
        m = re.search(r"MIME_TYPE:[^=]*=\s*⟦(\d+)⟧", s)
        if not m:
            R.bad("emit:mime", "MIME_TYPE is emitted", where)
            continue
        h = holes[int(m.group(1))]
        R.check(h[1] == ("fld", INP, "mime_type"), "emit:mime", "MIME_TYPE is the type of the template: %s" % pp(h[1])[:60], where)
        R.check("?" in h[2], "emit:mime-literal", "as a literal", where)
    if not n:
        raise Undecided("no successful path")
