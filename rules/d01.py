"""Generator::build is evaluated to the text it generates, with every node of the template left open. The text must hold one
implementation of the crate's Template trait and one of Display, each for the annotated type with that type's own generics,
type arguments and where clause. Template::render_into must be the code generated for the nodes followed by Ok(()); each of
EXTENSION, SIZE_HINT and MIME_TYPE must be emitted as a literal of the extension in effect (the given one, or else that of
the path), the size computed for the generated nodes, and the type found for the template. Display::fmt must be one call of
render_into with the formatter whose error, and only that, becomes a formatting error. build_template must return exactly
the generated code of the template at the path of the input. The type found for a template must be the one the MIME table
gives for the extension in effect (txt without one), text types with their UTF-8 parameter."""
import re
from g09 import *
from w01 import check_ext, base_upd, mime_arg, ext_fn, table

INP = ("fld", ("param", "p0"), "input")
AST = ("fld", INP, "ast")


def run(C):
    R = C.R
    R.floor = 10
    R.section("impls", impls, C)
    R.section("given", given, C)
    R.section("mime", mime_arg, C)
    R.section("extension", ext_fn, C)
    R.section("table", table, C)


def texts(C):
    b = C.body("askama_derive", GEN + "build")

    def wb(E, fr, st, a, line):
        return [(op(st, "write_block", gen_of(E, st, a[0])), ok(("call", "size", (("int", E.fresh()),))))]
    E = engine(C, max_depth=5, extra={GEN + "write_block": wb})
    return b, E, run_gen(C, E, b, bufs=())


def items(src):
    """Top-level items of the text: (head, body)."""
    out, depth, start, head = [], 0, 0, ""
    for i, c in enumerate(src):
        if c == "{":
            if not depth:
                head, begin = src[start:i], i + 1
            depth += 1
        elif c == "}":
            depth -= 1
            if depth < 0:
                raise Undecided("unbalanced braces")
            if not depth:
                out.append((head, src[begin:i]))
                start = i + 1
    if depth or src[start:].strip():
        raise Undecided("text outside of items: %s" % src[start:][:60])
    return out


def fns(body):
    """(functions, rest) of the body of an impl."""
    out, rest, i = {}, "", 0
    while True:
        m = re.compile(r"(?:#\[\w+(?:\(\w+\))?\])?fn(\w+)\(").search(body, i)
        if not m:
            return out, rest + body[i:]
        rest += body[i:m.start()]
        j = body.find("{", m.end())
        d, k = 1, j + 1
        while d and k < len(body):
            d += {"{": 1, "}": -1}.get(body[k], 0)
            k += 1
        if d:
            raise Undecided("unbalanced braces")
        if m.group(1) in out:
            raise Undecided("two functions %s" % m.group(1))
        out[m.group(1)] = (body[m.end():j], body[j + 1:k - 1])
        i = k


FMT = ("::std::fmt::Error{}", "::std::fmt::Error", "std::fmt::Error", "::core::fmt::Error")


def display_ok(sig, body):
    """True, False or None (not known) for the body of Display::fmt."""
    m = re.match(r"&self,(\w+):&mut", sig)
    if not m:
        return None
    f = m.group(1)
    call = r"(?:::askama\w*::Template::render_into\(self,%s\)|self\.render_into\(%s\))" % (f, f)
    n = len(re.findall(call, body))
    if not n:
        return None if re.search(r"render|write|\w+\(.*%s" % f, body) else False
    if n > 1:
        return False
    err = "(?:%s)" % "|".join(re.escape(x) for x in FMT)
    for t in (call + r"\.map_err\(\|_\w*\|" + err + r"\)", call + r"\.or\(Err\(" + err + r"\)\)", call + r"\.or_else\(\|_\w*\|Err\(" + err + r"\)\)",
              r"match" + call + r"\{(?:::std::result::Result::)?Ok\((?:\(\)|_)\)=>(?:::std::result::Result::)?Ok\(\(\)\),?(?:::std::result::Result::)?Err\(_\w*\)=>(?:::std::result::Result::)?Err\(" + err + r"\),?\}",
              call + r"\.map_err\(\|_\w*\|" + err + r"\)\?;(?:::std::result::Result::)?Ok\(\(\)\)",
              r"if" + call + r"\.is_err\(\)\{return(?:::std::result::Result::)?Err\(" + err + r"\);?\}(?:::std::result::Result::)?Ok\(\(\)\)"):
        if re.fullmatch(t, body):
            return True
    if re.search(r"\.ok\(\)|unwrap|expect|let_=|unwrap_or|\.or\(|or_else\(|is_ok|is_err|catch_unwind", body) or re.fullmatch(call + r"\.or\((?:::std::result::Result::)?Ok\(\(\)\)\)", body):
        return False
    if not re.search(r"map_err|Err\(|\?", body):
        return False
    return None


def impls(C):
    R = C.R
    b, E, res = texts(C)
    where = b.where()
    ext = []
    n = 0
    for st, rv in res:
        if is_agg(rv, "Err"):
            continue
        if not is_agg(rv, "Ok"):
            raise Undecided("result %s" % pp(rv)[:60])
        v = E.norm(st, dict(rv[3])["0"])
        if v[0] != "code":
            raise Undecided("generated text %s" % pp(v)[:60])
        n += 1
        holes, src = [], ""
        for x in v[1]:
            if x[0] == "s":
                src += x[1]
            elif x[0] == "h":
                src += "⟦%d⟧" % len(holes)
                holes.append(x)
            elif x[0] == "star":
                src += "⟪⟫"
            else:
                raise Undecided("generated text %s" % pp(x)[:60])
        its = items(nows(src))
        got = {}
        for head, body in its:
            m = re.fullmatch(r"impl(⟦\d+⟧|)(.*?)for⟦(\d+)⟧(⟦\d+⟧|)(⟦\d+⟧|)", head)
            if not m:
                if "Template" in head or "Display" in head:
                    raise Undecided("header of an impl: %s" % head[:100])
                continue
            name = {"::std::fmt::Display": "Display", "::core::fmt::Display": "Display"}.get(m.group(2))
            if re.fullmatch(r"::askama\w*::Template", m.group(2)):
                name = "Template"
            if name is None:
                continue
            if not R.check(name not in got, "impl:%s:once" % name, "there is one implementation of %s" % name, where):
                continue
            got[name] = body
            k = "impl:" + name
            h = holes[int(m.group(3))][1]
            R.check(h == ("fld", AST, "ident"), k + ":ident", "%s is implemented for the type of the template: %s" % (name, pp(h)[:60]), where)
            for g, i, what in ((m.group(1), "0", "generics"), (m.group(4), "1", "type arguments"), (m.group(5), "2", "where clause")):
                if not g:
                    R.bad(k + ":" + what.replace(" ", "-"), "the %s of the type are written" % what, where)
                    continue
                h = holes[int(g[1:-1])][1]
                if not (h[0] == "fld" and h[1][0] == "call" and h[1][1].endswith("split_for_impl")):
                    raise Undecided("%s %s" % (what, pp(h)[:80]))
                src_ = h[1][2][0]
                R.check(h[2] == i and (src_ == ("fld", AST, "generics") or i != "1" and base_upd(src_) == ("fld", AST, "generics")),
                        k + ":" + what.replace(" ", "-"), "with the %s of the type: %s" % (what, pp(h)[:80]), where)
        for name in ("Template", "Display"):
            R.check(name in got, "impl:" + name, "%s is implemented: %s" % (name, [x[0][:60] for x in its]), where)
        if "Display" in got:
            fs, rest = fns(got["Display"])
            if not R.check("fmt" in fs, "display:fmt", "Display has the method fmt: %s" % sorted(fs), where):
                continue
            o = display_ok(*fs["fmt"])
            if o is None:
                raise Undecided("body of Display::fmt: %s" % fs["fmt"][1][:100])
            R.check(o, "display:body", "formatting renders the template into the formatter and reports its failure: %s" % fs["fmt"][1][:100], where)
        if "Template" in got:
            template(C, E, st, got["Template"], holes, ext, where)
    if not n:
        raise Undecided("no successful path")
    if ext:
        check_ext(C, "const:EXTENSION", ext, ("fld", INP, "ext"), where)


def template(C, E, st, body, holes, ext, where):
    R = C.R
    fs, rest = fns(body)
    if R.check("render_into" in fs, "template:render_into", "Template has the method render_into: %s" % sorted(fs), where):
        t = fs["render_into"][1]
        sizes = [h for h in holes if h[1][0] == "call" and h[1][1] == "size"]
        m = re.fullmatch(r"((?:⟪⟫|include_bytes!\(⟦\d+⟧\);)*)(return)?(::askama\w*::Result::Ok\(\(\)\)|Ok\(\(\)\)|::std::result::Result::Ok\(\(\)\));?", t)
        if not m and re.search(r"\breturn|Ok\(\(\)\).+", t) is None and not re.search(r"Ok\(\(\)\)$", t):
            R.bad("template:result", "render_into ends in Ok(()): %s" % t[:80], where)
        elif not m:
            raise Undecided("body of render_into: %s" % t[:100])
        else:
            R.check(True, "template:result", "render_into is the code of the nodes and Ok(())", where)
        calls = [e for e in st.ev if e[0] == "op" and e[1] in ("handle", "write_block")]
        R.check(len(calls) == 1, "template:once", "the template is generated once: %s" % [e[1] for e in calls], where)
    for m in re.finditer(r"const(\w+):([^=]*)=([^;]*);", rest):
        nm, val = m.group(1), m.group(3)
        hm = re.fullmatch(r"⟦(\d+)⟧", val)
        k = "const:" + nm
        if nm not in ("EXTENSION", "SIZE_HINT", "MIME_TYPE"):
            continue
        if not hm:
            if re.search(r"⟦", val):
                raise Undecided("value of %s: %s" % (nm, val[:60]))
            R.bad(k, "%s is that of the template: %s" % (nm, val[:60]), where)
            continue
        h = holes[int(hm.group(1))]
        if nm == "EXTENSION":
            R.check("?" in h[2], k + ":literal", "EXTENSION is written as a literal", where)
            ext.append((st.conds, h[1], ("fld", INP, "path")))
        elif nm == "SIZE_HINT":
            R.check(any(isinstance(x, tuple) and x[:2] == ("call", "size") for x in walk(h[1])), k, "SIZE_HINT is the size computed for the nodes: %s" % pp(h[1])[:60], where)
        else:
            R.check(h[1] == ("fld", INP, "mime_type") and "?" in h[2], k, "MIME_TYPE is the type found for the template, as a literal: %s" % pp(h[1])[:60], where)
    have = set(re.findall(r"const(\w+):", rest))
    for nm in ("EXTENSION", "SIZE_HINT", "MIME_TYPE"):
        R.check(nm in have, "const:%s:emitted" % nm, "%s is defined" % nm, where)


def given(C):
    """build_template returns the code generated for the template of the input."""
    R = C.R
    b, ps = build_paths(C)
    where = b.where()
    n = 0
    for conds, evs, rv in ps:
        if not is_agg(rv, "Ok"):
            continue
        n += 1
        v = dict(rv[3])["0"]
        g = [e for e in evs if e[0] == "op" and e[1] == "generate"]
        R.check(len(g) == 1, "given:once", "the code is generated once: %d times" % len(g), where)
        if not g:
            continue
        R.check(v[0] == "call" and v[1] == "generate" or v == ("fld", ("as", ("call", "generate", g[0][2:]), "Ok"), "0"), "given:code",
                "the code is returned as it was generated: %s" % pp(v)[:80], where)
        ctx = g[0][3]
        own = [x for x in walk(ctx) if isinstance(x, tuple) and x[:1] == ("fld",) and x[2] == "path"]
        if not own:
            if any(isinstance(x, tuple) and x[:2] == ("call", "input") for x in walk(ctx)):
                raise Undecided("context %s" % pp(ctx)[:80])
            R.bad("given:context", "it is generated for the template of the input: %s" % pp(ctx)[:80], where)
            continue
        R.check(all(base_upd(x[1])[0] == "call" and base_upd(x[1])[1] == "input" for x in own), "given:context", "it is generated for the template of the input: %s" % pp(ctx)[:80], where)
    if not n:
        raise Undecided("no successful path")
