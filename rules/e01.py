"""The HTML escaper's loop over its input is summarised as one arbitrary iteration; the summary is evaluated for every
byte value: a special byte must flush exactly the span since the last flush, write a character reference that decodes
to it and move the span start behind it; any other byte must write nothing (or itself) and leave the span start; the
span starts at 0 and the rest is written after the loop. The text escaper must pass its argument to the writer once,
unchanged. The standalone escape display must hand its whole string to the escaper."""
import html
from rules import *
import spanloop


def run(C):
    R = C.R
    R.floor = 258
    html_b = C.body("askama_escape", "<Html as Escaper>::write_escaped")
    text_b = C.body("askama_escape", "<Text as Escaper>::write_escaped")
    esc_b = C.body("askama_escape", "<Escaped as std::fmt::Display>::fmt")
    R.section("html", spanloop.check, C, "askama_escape", html_b, ("param", "p2"), {ord(c) for c in "<>&\"'"},
              lambda s, v: s.startswith("&") and s.endswith(";") and html.unescape(s) == chr(v), "html")
    R.section("text", text_rule, C, text_b)
    R.section("escaped", escaped_rule, C, esc_b)


def text_rule(C, b):
    E = C.engine("askama_escape", record=lambda p: True)
    for st, rv in C.run(E, b):
        w = [e for e in st.ev if e[0] == "call"]
        good = len(st.ev) == 1 and len(w) == 1
        if good:
            x = w[0][2][1]
            good = spanloop.write_kind(w[0][1]) in ("write_str", "write_fmt") and (
                x == ("param", "p2") or x[0] == "fmt" and x[1] == (("h", ("param", "p2"), ""),))
        C.R.check(good, "text-verbatim", "the text escaper writes its input once, unchanged; writes %s" % [pp(x[2][1]) for x in w], b.where())


def escaped_rule(C, b):
    E = C.engine("askama_escape", record=lambda p: True)
    S = ("fld", ("param", "p0"), "string")
    for st, rv in C.run(E, b):
        w = [e for e in st.ev if e[0] == "call"]
        good = len(st.ev) == 1 and len(w) == 1 and w[0][1].split("::")[-1] == "write_escaped" and w[0][2][2] == S
        C.R.check(good, "escape-fn", "escape() passes the whole string to the escaper once; calls %s" % [x[1] for x in w], b.where())
