"""Writes the per-property part of DESIGN.md from the rule modules, the property list, the planted bugs and NOTES below."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id: (oracle, bounds)
NOTES = {
    "E01": ("the five special characters and what an HTML character reference decodes to", "none: a summary of one arbitrary loop iteration, evaluated for all 256 bytes"),
    "E02": ("the typestate safe/unsafe of a displayed value", "none"),
    "E03": ("per form of expression: escaped unless its outermost operation is safe, escape or e", "none on expressions; every path of the visitor per form"),
    "E04": ("the documented search order and the documented built-in table", "none"),
    "R01": ("errors are values that must be answered for", "all functions of the run-time crates"),
    "R02": ("each forwarding method stands for the method of the same meaning", "none"),
    "R03": ("position in the underlying sequence", "indices around every constant in the code and every integer width"),
    "R04": ("JSON string escapes", "all bytes"),
    "R05": ("RFC 3986 unreserved characters, with and without the slash", "the compiler-evaluated masks, all 128 bits"),
    "R06": ("separator between consecutive items", "positions around the constants and integer widths in the code"),
    "R07": ("the documented limit of 10000", "widths and lengths around the limit; one arbitrary loop iteration"),
    "R08": ("an error holds, shows and gives as its source the error that caused it", "none: every variant, every fallible function of the run-time library"),
    "R09": ("the documented composition of library functions; a reference machine for title; a reference transducer for trim and truncate", "pieces: every order of remaining length, piece length and next character boundary up to 4 (the comparisons only depend on the order); characters by class (white space, upper, lower, other) with representatives"),
    "G01": ("a table of the expected code shape per kind of node", "none: every abstract path of Generator::handle per kind"),
    "G02": ("the scope each construct introduces", "none on templates; scopes are replayed along each path"),
    "G03": ("the text itself, decoded by the format syntax and by Debug", "none: spans and one arbitrary character"),
    "G04": ("the documented meaning of + - ~ and of the configured default, earlier marker first", "all combinations of marker, default and shape of the text"),
    "G05": ("the Rust notation of each form", "operand lists of 0 to 3 elements"),
    "G06": ("a failing operation ends rendering with its error", "none"),
    "G07": ("Jinja's loop variables as documented", "all names the visitor compares with, and others"),
    "G08": ("binding by name, else by position", "0 to 2 parameters (binding is per parameter)"),
    "G09": ("most derived definition first, super the next", "chains of 1 to 4 templates for the order of registration"),
    "G10": ("the documented lookup order", "none"),
    "G11": ("the list of Rust keywords", "every keyword, its neighbours and other names"),
    "G12": ("the functions exported by askama::filters, read from the crate itself", "every exported name, every name compared with, others"),
    "G13": ("output is kept exactly inside the named block", "none: all combinations of named/other and discarding/keeping"),
    "G14": ("an expression may be shared only if evaluating it has no effect and it can be displayed repeatedly", "none"),
    "P01": ("Rust's table of operator precedence and associativity", "none: the grammar itself is compared"),
    "P02": ("first marker of a tag leads, last trails", "none: every alternative of every node parser"),
    "P03": ("balance of the level and loop counters on every path", "none: counters relative to entry, graph of parser functions"),
    "P04": ("only the configured delimiters", "none"),
    "P05": ("ownership of self-referential trees", "all owners constructed in the crate; compile-fail witnesses for clients"),
    "P06": ("bracket matching of comment delimiters; endraw", "levels beyond the greatest constant are alike"),
    "P07": ("row and column by definition", "texts of up to four characters of each kind in front, lengths around the constants behind"),
    "P08": ("regular expressions of the tokens, read longest first", "none: equality of automata, over all texts; one representative for each class of characters"),
    "P09": ("regular expressions of the tags over labelled tokens", "none: equality of automata over all sequences of tokens; names are decided on a few representatives"),
    "P10": ("the conditions under which each panicking operation is safe", "texts below 2 GiB (counters of 32 bits); the library's functions not documented to panic are trusted not to"),
    "C01": ("the documented conditions on delimiters", "delimiters of every kind the conditions distinguish"),
    "C02": ("the documented precedence", "none"),
    "C03": ("each name sets its own option", "none: one arbitrary argument of each known name, and an unknown one"),
    "W01": ("success status exactly if rendering succeeded; documented MIME rule", "none; the four features are analysed from builds of their own"),
    "T01": ("a measure for every loop and recursion", "none"),
    "D01": ("the header of an impl for a type, the constants' definitions", "none: every path of Generator::build with the nodes left open"),
    "D02": ("a failure stays a failure", "none: every fallible call of the derive crate, path-sensitively"),
    "F01": ("content minus one final line break", "all contents of up to four characters of six kinds and some longer ones"),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
seeds = {}
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    seeds.setdefault(m["property"], []).append((d, m["what_it_breaks"]))
out = []
for p in props:
    f = os.path.join(V, "rules", p["id"].lower() + ".py")
    if not os.path.exists(f):
        continue
    o, b = NOTES[p["id"]]
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("Rule. " + " ".join(ast.get_docstring(ast.parse(open(f).read())).split()) + "\n")
    out.append("Oracle: %s. Bounds: %s. Why tests cannot: %s" % (o, b, p["why_tests_cant"]) + "\n")
    for d, w in seeds.get(p["id"], []):
        out.append("* planted `%s` (caught): %s" % (d, " ".join(w.split())))
    if p["id"] in seeds:
        out.append("")
t = open(os.path.join(V, "DESIGN.md")).read()
A, B = "<!-- properties -->\n", "<!-- /properties -->\n"
t = t[:t.index(A) + len(A)] + "\n" + "\n".join(out) + "\n" + t[t.index(B):]
open(os.path.join(V, "DESIGN.md"), "w").write(t)
