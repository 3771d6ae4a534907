"""Writes /verif/properties.jsonl (the list of properties, kept here in a readable form)."""
import json, os
G = "askama_derive/src/generator.rs"
P = []


def p(id, title, stmt, over, qtext, why, files, mech, state=None):
    d = {"id": id, "title": title, "statement": stmt, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)


ESC = "askama_escape/src/lib.rs"
p("E01", "HTML escaping covers exactly the five special characters",
  "For every input string, the HTML escaper writes the string with each <, >, &, \" and ' replaced by a character reference that stands for exactly that character, and every other character copied unchanged, in order, with nothing dropped or repeated. The plain-text escaper writes the input unchanged.",
  ["inputs"], "every string, with special characters in any number and position, and every writer",
  "Unit tests escape about twenty short strings; the property is over all strings, positions and runs of special characters.",
  [ESC], [("HTML escaper loop and table", ESC + " Html::write_escaped"), ("text escaper", ESC + " Text::write_escaped")])
p("E02", "A value is escaped unless it was marked safe, however it is written",
  "Displaying a value that is not marked safe sends every piece of its output through its escaper, whether the value writes strings, characters or formatted arguments, and displaying a value that is marked safe writes it verbatim. A value is only ever marked safe by the explicit safe operations; wrapping a value as unsafe and concatenating values never turns unsafe content into safe content.",
  ["inputs"], "every displayable value and escaper, every sequence of write calls its formatting makes",
  "Tests format a handful of values whose Display calls write_str once.",
  [ESC, "askama/src/filters/mod.rs"], [("display wrapper", ESC + " MarkupDisplay"), ("escaping writer", ESC + " EscapeWriter"), ("safe / escape filters", "askama/src/filters/mod.rs safe, escape, e")])
p("E03", "Every interpolated expression is escaped unless the author opted out",
  "The generated code passes the value of every template expression, and the result of every filter block, through the template's escaper, except where the outermost operation is the safe or the escape filter, which yield a value that already carries its own escaping. Literal template text is never escaped.",
  ["programs"], "every template: any expression form, in any node, any nesting of blocks, includes, macros and filter blocks",
  "Tests render some dozens of templates; the decision is made per expression kind and call site, and most combinations (e.g. every special filter inside a filter block) are never sampled.",
  [G], [("wrapping of expressions", G + " named_expression"), ("wrap state of each expression kind", G + " visit_expr and helpers"), ("special filters", G + " visit_filter")])
p("E04", "The escaper of a template is chosen from its declared mode or extension",
  "The escaper of a template is the first configured one, user-defined ones before the built-in ones, that lists the template's escape attribute, or if there is none the extension of its path; if no escaper lists it, the derive fails. Naming an escaping mode in the escape filter selects by the same table, and without a name the template's own escaper is used.",
  ["programs", "configurations"], "every combination of escape attribute, path, extension and configured escapers",
  "Tests cover the built-in extensions and one custom escaper.",
  ["askama_derive/src/input.rs", "askama_derive/src/config.rs", G], [("selection", "askama_derive/src/input.rs TemplateInput::new"), ("table", "askama_derive/src/config.rs Config::new, DEFAULT_ESCAPERS"), ("escape filter", G + " _visit_escape_filter")])

LIB = "askama/src/lib.rs"
p("R01", "A failed render is reported, never swallowed",
  "Every error reported by the writer, by a value's formatting or by a nested operation while the run-time library renders, escapes or filters is returned to the caller, and no success is reported after it.",
  ["inputs", "fault_sequences"], "every fallible call in the run-time crates failing at any moment (the n-th write of any writer, any formatting implementation)",
  "Tests write to strings, which never fail, so no error path of the run-time code is exercised.",
  [LIB, "askama/src/filters/mod.rs", "askama/src/filters/json.rs", ESC, "askama/src/error.rs"], [("render entry points", LIB), ("filters", "askama/src/filters"), ("escaping writer", ESC)])
p("R02", "References and trait objects behave exactly like the template itself",
  "Rendering through a reference or through the object-safe interface produces the same output and reports the same extension, size hint and MIME type as the template. render returns exactly what render_into writes to an empty string, and write_into and the writer-based entry points write exactly what render_into writes.",
  ["programs", "inputs"], "every template type and every way of calling it",
  "Tests exercise one dynamic template; the forwarding of the constants and of the reference implementation is mostly unobserved.",
  [LIB], [("provided methods", LIB + " trait Template"), ("reference impl", LIB + " impl Template for &T"), ("dyn impl", LIB + " impl DynTemplate for T")])
p("R03", "Loop position variables are right for every iterator",
  "Inside a for loop, the iteration wrapper yields every item of the underlying iterator once and in order, the zero-based index counts iterations, the first flag is true exactly for the first item and the last flag exactly when the underlying iterator has no further item.",
  ["inputs"], "every iterator, including empty, single-element, and filtered ones without known length",
  "Tests iterate over a few short vectors.",
  ["askama/src/helpers.rs"], [("iteration wrapper", "askama/src/helpers.rs TemplateLoop::next")])
p("R04", "The JSON filter never outputs HTML-significant characters",
  "For every serialisable value, the output of the JSON filter contains no &, <, > or ', each of them being replaced by the JSON escape of exactly that character, and all other bytes of the serialised text are passed through unchanged and in order.",
  ["inputs"], "every value and every chunking the serialiser writes in",
  "Tests serialise three values.",
  ["askama/src/filters/json.rs"], [("escaping writer", "askama/src/filters/json.rs write")])
p("R05", "URL encoding leaves exactly the unreserved characters as they are",
  "urlencode leaves ASCII letters, digits, '_', '.', '-', '~' and '/' unencoded and percent-encodes every other byte; urlencode_strict differs only in also encoding '/'. Every piece of the value's output is encoded.",
  ["inputs"], "every byte and every way the value is written",
  "Tests try some characters; the sets are over all bytes.",
  ["askama/src/filters/mod.rs"], [("sets", "askama/src/filters/mod.rs URLENCODE_SET, URLENCODE_STRICT_SET"), ("encoder", "askama/src/filters/mod.rs UrlencodeFilter")])
p("R06", "The join filter separates consecutive items and nothing else",
  "Joining writes every item of the input once and in order with the separator written once between each two consecutive items, and not before the first or after the last one.",
  ["inputs"], "every iterator and separator",
  "Tests join vectors of length one and two.",
  ["askama/src/filters/mod.rs"], [("join", "askama/src/filters/mod.rs JoinFilter::fmt")])
p("R07", "Size-controlled filters do not allocate beyond their documented limit",
  "The indent filter returns its input unchanged when the width or the input length exceeds the fixed limit of 10000, so that a width taken from untrusted data cannot make it allocate without bound, and otherwise puts the given number of spaces after each line break except one that ends the input.",
  ["inputs"], "every string and width",
  "Tests use widths 4 and one fuzzed input.",
  ["askama/src/filters/mod.rs"], [("limit", "askama/src/filters/mod.rs MAX_LEN, indent")])
p("R08", "An error that ends rendering keeps its cause",
  "The error a failed rendering returns is the error of the operation that failed: an error raised with the try operator in a template is carried, itself, by the custom variant, a formatting error by the formatting variant and a serialisation error by its own, each is given as the source of the error, and displaying the error shows its message once and reports a failure to write it.",
  ["inputs", "programs"], "every error value, failing operation and template",
  "No test looks at the source of an error, and one renders an error raised in a template.",
  ["askama/src/error.rs", "askama/src/lib.rs", G], [("conversions", "askama/src/error.rs From impls"), ("source", "askama/src/error.rs source, fmt"), ("try operator", G + " visit_try")])

p("R09", "Text filters change the text exactly as documented",
  "The text filters apply the documented change to the whole value, however it is written in pieces: lower/upper change the case of all of it, capitalize upper-cases the first character and lower-cases the rest, title upper-cases the first character of every word and lower-cases the others, keeping white space; trim removes white space on both sides and nowhere else; truncate keeps the text up to the first character boundary at or after the limit and appends '...' exactly if something was left out; linebreaks, linebreaksbr and paragraphbreaks replace line breaks by the documented elements; wordcount counts words; center pads with spaces on both sides unless the width exceeds the fixed limit; abs, into_f64 and into_isize give the number's absolute value or cast, or an error if it cannot be cast; filesizeformat shows decimal units with up to two digits.",
  ["inputs"], "every text, every way of writing it in pieces, every limit and width",
  "Tests give each filter a few short texts written in one piece.",
  ["askama/src/filters/mod.rs"], [("case", "askama/src/filters/mod.rs lower, upper, capitalize, title"), ("trim", "askama/src/filters/mod.rs trim"), ("truncate", "askama/src/filters/mod.rs TruncateFilter"), ("line breaks", "askama/src/filters/mod.rs linebreaks, linebreaksbr, paragraphbreaks"), ("numbers", "askama/src/filters/mod.rs wordcount, abs, into_f64, into_isize, filesizeformat, center")])
p("G01", "Output appears in template order around every control construct",
  "Pending output is written before the code of any construct that runs, skips, repeats or scopes code (if, match, for, break, continue, include, macro call, variable introduction, and the end of each such body), so literals and expressions are output exactly once, in template order and only in the branch they belong to. The content of a filter block is rendered into a separate string which is inserted, filtered, at the place of the block.",
  ["programs"], "every template: any order and nesting of nodes",
  "Tests render fixed templates; ordering bugs need particular sequences of pending output and constructs, and two such bugs were present on the original tree.",
  [G], [("deferred output", G + " buf_writable, write_buf_writable"), ("constructs", G + " write_if, write_match, write_loop, write_call, write_let, handle_include, write_block, write_filter_block")],
  [("pending output", "literals and expressions not yet emitted", G + " Generator.buf_writable")])
p("G02", "Template variables are scoped to their block and shadow correctly",
  "A variable introduced by let, a pattern, a loop or a macro parameter is visible from its introduction to the end of the innermost enclosing body and nowhere else; a name that is in scope denotes the innermost variable and any other name denotes the field of the template struct. Every scope opened while generating code for a construct is closed by its end, on every path.",
  ["programs"], "every template and nesting of scopes",
  "Tests use shallow scopes; balance of scopes and resolution order over arbitrary nesting is not sampled.",
  [G], [("scope chain", G + " MapChain"), ("targets", G + " visit_target"), ("constructs", G + " write_if, write_match, write_loop, write_call, write_filter_block")],
  [("scopes", "names visible at the current point", G + " Generator.locals")])
p("G03", "Literal text reaches the output verbatim",
  "Template text outside tags, including raw blocks, reaches the output unchanged (braces, quotes, backslashes and non-ASCII text included) apart from the whitespace control at its two ends. It is written either as it is or as a format string in which every brace is doubled.",
  ["programs"], "every literal text and mixture with expressions",
  "Tests contain few literals with braces or special characters, mostly in one of the two emission forms.",
  [G], [("literal emission", G + " prepare_format, write_buf_writable"), ("literal nodes", G + " visit_lit")])
p("G04", "Whitespace control does exactly what the markers say",
  "The whitespace before and after a tag is kept, removed or minimised to one newline or space according to the tag's own marker, '+' preserving, '-' removing and '~' minimising, and the configured default where there is no marker; a marker affects only the text adjacent to its side of the tag. Where two tags control the same whitespace, removing it takes precedence over minimising it, and that over preserving it.",
  ["programs", "configurations"], "every combination of markers, defaults and surrounding text",
  "The decision is a table over markers, default and text shape on both sides of each tag, of which tests sample some rows.",
  [G], [("trailing whitespace", G + " flush_ws"), ("leading whitespace", G + " visit_lit, prepare_ws"), ("default", G + " should_trim_ws")],
  [("pending whitespace", "trailing whitespace of the last literal", G + " Generator.next_ws"), ("mode for next literal", "handling of the next leading whitespace", G + " Generator.skip_ws")])
p("G05", "Each expression form is translated operand for operand",
  "The Rust expression generated for a template expression contains each operand exactly once and in source order, with the operator, field name, index, arguments, path and literal of the template, and keeps the grouping of the template expression. Every kind of expression the parser can produce is translated or rejected, and the same holds for the patterns of let, match, if let and for: every part of a pattern is translated once, in order, with its path, field names and literals.",
  ["programs"], "every expression tree and pattern",
  "Tests contain a small set of expressions; a swapped or dropped operand in a rarely used form is not seen.",
  [G], [("expression visitors", G + " visit_expr and visit_* functions")])
p("G06", "Generated code propagates every failure of the operations it calls",
  "In generated code the result of every write to the output, of every filter call and of every try expression is followed by error propagation, and the generated render function ends by returning success.",
  ["programs"], "every generated program and every run-time failure in it",
  "Tests render into strings with filters that do not fail.",
  [G], [("write emission", G + " write_buf_writable"), ("filter calls", G + " visit_filter and _visit_*_filter"), ("try", G + " visit_try")])
p("G07", "For loops run body and else branch exactly as specified",
  "The body of a for loop is generated inside a loop over the given iterable with its pattern bound, the filter condition is applied before iterating, and an else branch runs exactly when no iteration took place. loop.index is the one-based, loop.index0 the zero-based position, loop.first and loop.last the first and last flags, and loop.cycle selects from a non-empty array by the zero-based position modulo its length; any other loop attribute is rejected.",
  ["programs"], "every loop with any iterable form, condition and else branch",
  "Tests cover some iterable forms; combinations (condition with else, cycle in nested loops) are not.",
  [G], [("loop emission", G + " write_loop"), ("loop variables", G + " visit_attr, visit_call")])
p("G08", "Macro calls bind each parameter to its own argument",
  "A macro call is accepted only with as many arguments as the macro has parameters and no unknown named argument, and binds each parameter to the argument named after it or else at its position, every argument being evaluated in the scope of the caller before any parameter is visible. The macro body is generated with the macros and imports of the template that defines it.",
  ["programs"], "every macro definition and call, with any mixture of positional and named arguments and any coincidence of names",
  "Tests call few macros with distinct names; an argument named like another parameter was resolved wrongly on the original tree.",
  [G], [("macro call", G + " write_call")])
p("G09", "Block inheritance picks the most derived definition and super the next one",
  "Rendering a template that extends others generates the root ancestor with each block replaced by its most derived definition, and super() inside a block generates the definition of the next ancestor that has one. super() outside a block or without further definition and blocks nested in a block of the same name are rejected.",
  ["programs"], "every inheritance chain and any set of overridden blocks",
  "Tests use chains of up to three templates.",
  [G, "askama_derive/src/heritage.rs"], [("ancestry", "askama_derive/src/heritage.rs Heritage::new"), ("block emission", G + " write_block"), ("entry", G + " impl_template")])
p("G10", "Every template file that is used is found, loaded and tracked",
  "Every template named by an extends, import or include tag anywhere in a used template is loaded before code is generated, with the path looked up relative to the template containing the tag and then in the configured directories, and the generated code references every loaded file so that a change to it triggers a rebuild.",
  ["programs", "configurations"], "every dependency graph between template files, with tags at any nesting",
  "Tests have no nested relative includes and cannot observe rebuild tracking.",
  ["askama_derive/src/input.rs", "askama_derive/src/heritage.rs", G], [("discovery", "askama_derive/src/input.rs find_used_templates"), ("include", G + " handle_include"), ("tracking", G + " impl_template, handle_include")])
p("G11", "Names that are Rust keywords work as template names",
  "Every template name that is a Rust keyword, other than self, Self, super and loop, is translated into the raw identifier of exactly that name wherever a variable, field, attribute, or pattern field is generated, and every other name is left unchanged.",
  ["programs"], "every identifier, in every position",
  "Tests use a few keywords in a few positions.",
  [G], [("table", G + " normalize_identifier"), ("use sites", G + " visit_var, visit_attr, visit_target, MapChain::resolve")])
p("G12", "Built-in filter names always reach the built-in filters",
  "Every filter shipped with the run-time library is known to the code generator as built in and is called there, the generator handles only names that exist, and every other filter name is called in the user's own filters module. The filtered value is the first argument, followed by the given ones in order.",
  ["programs"], "every filter name and argument list",
  "Tests use most but not all filters, and not the resolution of unknown ones.",
  ["askama_derive/src/lib.rs", "askama/src/filters/mod.rs", G], [("registry", "askama_derive/src/lib.rs BUILT_IN_FILTERS"), ("dispatch", G + " visit_filter")])
p("G13", "Rendering a single block outputs that block and nothing else",
  "If the template attribute names a block, the output consists of exactly the content of that block, wherever it is defined and however it is nested, and an unknown block name is rejected. If no block is named everything is output.",
  ["programs"], "every template with the block at any nesting, and text or expressions before, after and around it",
  "Tests have a few block fragments at top level and nested once.",
  [G, "askama_derive/src/lib.rs"], [("discarding buffer", G + " WritableBuffer::push, Buffer"), ("block switch", G + " write_block"), ("existence", "askama_derive/src/lib.rs build_template")],
  [("discard", "output is currently not generated", G + " WritableBuffer.discard, Buffer.discard")])
p("G14", "Only expressions without effects are evaluated once for several uses",
  "Two occurrences of an expression between flushes share one evaluation only if every part of it is a literal, a variable, a path, a field, an index, an operator, a range, a group, an array, a tuple or a filter; calls, macro invocations and try expressions, at any depth, are evaluated at each occurrence.",
  ["programs"], "every pair of equal expressions and any nesting of effectful parts",
  "Tests check one caching example.",
  [G], [("purity", G + " is_cacheable"), ("cache", G + " named_expression")])

E_ = "askama_parser/src/expr.rs"
N_ = "askama_parser/src/node.rs"
L_ = "askama_parser/src/lib.rs"
p("P01", "Operator precedence and associativity follow Rust",
  "Binary operators bind, from loosest to tightest: range, ||, &&, comparisons, |, ^, &, shifts, additive, multiplicative, then filters and unary operators, then suffixes; chains of one level associate to the left, and an operator spelled by more characters is never read as its prefix.",
  ["programs"], "every expression built from any operators",
  "Parser tests check pairs of neighbouring levels for some operators.",
  [E_], [("precedence layers", E_ + " expr_prec_layer! functions")])
p("P02", "Each whitespace marker is attributed to its own side of its own tag",
  "For every tag, the marker after the opening delimiter is recorded as the outer or inner leading marker and the one before the closing delimiter as the trailing marker of that same delimiter pair, and the marker characters '-', '+' and '~' stand for suppress, preserve and minimise.",
  ["programs"], "every tag form (opening, middle and closing tags) with every marker combination",
  "Each of about twenty tag forms has up to four marker positions; tests sample some.",
  [N_], [("tag parsers", N_ + " *::parse functions"), ("marker", N_ + " Whitespace::parse")])
p("P03", "Nesting is bounded and loop control only appears inside loops",
  "Recursive constructs of the template language are accepted only up to a fixed nesting depth; each level that is entered is left again on every path, so that sibling constructs never count as nested. break and continue are accepted exactly inside the body of a for loop.",
  ["programs"], "every template text, including malformed ones",
  "Tests contain one excessively nested template and one misplaced break; leaked levels need long templates.",
  [L_, N_, E_], [("levels", L_ + " Level::nest, State::nest, State::leave"), ("loop depth", L_ + " State::enter_loop, leave_loop, is_in_loop")])
p("P04", "Only the configured delimiters are recognised",
  "With custom delimiters configured, exactly the configured strings open and close blocks, expressions and comments everywhere in the template, and the default delimiters are ordinary text.",
  ["programs", "configurations"], "every syntax configuration and template",
  "Tests have two custom syntaxes and few templates using them.",
  [L_, N_], [("delimiter parsers", L_ + " State::tag_*, Syntax"), ("users", N_)])
p("P05", "Parsed templates can never outlive or dangle from their source",
  "Safe code using the parser crate can neither obtain a syntax tree reference that outlives the owned source text nor move or change that text while references into it exist.",
  ["programs"], "every safe client program",
  "It is a statement about all client programs; tests compile only correct ones.",
  [L_], [("self-referential owner", L_ + " mod _parsed: Parsed")])
p("P06", "Comments and raw blocks never leak into or swallow other content",
  "A comment, nested comments included, ends at its matching end delimiter and produces no output, the content of a raw block up to its first matching end tag is literal text, and an unclosed comment, raw block, expression or block tag is rejected.",
  ["programs"], "every template text with comments and raw blocks, nested or unterminated",
  "Tests contain a few comments and raw blocks.",
  [N_, G], [("comments", N_ + " Comment::parse"), ("raw", N_ + " Raw::parse"), ("closing", N_ + " Node::parse, Node::expr")])
p("P07", "Parse errors are reported at the right position",
  "A template that cannot be parsed is always reported at a position of its own text: the row is the number of line breaks before the position and the column the number of characters after the last of them, along with the beginning of the text that follows, marked exactly if it was cut, the parser's message if there is one and, for template files only, the file's path; reporting never fails or panics.",
  ["programs"], "every template text with an error, at every position, with characters of any width",
  "The tests compare a few messages, nearly all for errors in the first line of ASCII templates.",
  [L_, N_, "askama_parser/src/expr.rs", "askama_derive/src/input.rs"], [("coordinates", L_ + " Ast::from_str"), ("positions", "ErrorContext::new and every other error made in lib.rs, node.rs, expr.rs"), ("display", L_ + " Display for ParseError"), ("paths", "askama_derive/src/input.rs find_used_templates")])

p("P08", "Names, literals and paths are read exactly",
  "An identifier is the longest run of ASCII letters, digits, underscores and non-ASCII characters not beginning with a digit, and a keyword is recognised only as a whole identifier. A numeric literal is the longest text with the form of a Rust number; a string literal ends at the first quote that is not escaped, its content being kept as written; a character literal is accepted only if it is one character or one of Rust's escapes in range. A name is a variable unless it starts with an uppercase letter; that, a leading '::' or several components make it a path of exactly the components written. Blanks are space, tab, carriage return and line feed.",
  ["inputs"], "every text at every position where a token can start",
  "The tests read some tens of tokens; what is read depends on every character of the text and on which alternative is tried first.",
  [L_, "askama_parser/src/expr.rs"], [("identifier", L_ + " identifier, keyword, is_ws"), ("number", L_ + " num_lit, separated_digits"), ("string and char", L_ + " str_lit, char_lit, Char::parse"), ("path", L_ + " path_or_identifier")])

p("P09", "Every tag, pattern and argument list is read part by part as documented",
  "What follows the name of a tag is exactly its documented sequence of parts, blanks being allowed between any two, and each part becomes the field of the node it is meant for: pattern, sequence, condition, body and else body of a loop, branches and arms in the order written, path and scope of an import, name, parameters and arguments of macros and calls, the filters of a block from the inside out, the elements of patterns, tuples, arrays and argument lists. Anything else is rejected, among it a block or macro ended by another name, a macro named super, the names self and writer in patterns, a named argument passed twice, outside of a macro call or in front of a positional one, and whitespace markers on extends.",
  ["inputs"], "every text behind the name of a tag or at the start of a pattern or list",
  "The tests parse some form of each tag; optional parts, repetitions and separators combine without bound.",
  [N_, "askama_parser/src/expr.rs"], [("tags", N_ + " Loop, If, Cond, CondTest, Let, Match, When, Macro, Call, BlockDef, FilterBlock, Include, Import, Extends ::parse"),
   ("dispatch", N_ + " Node::parse, Node::many"), ("patterns", N_ + " Target"), ("arguments", "askama_parser/src/expr.rs Expr::arguments, group, array, Suffix")])

p("P10", "No template text makes the parser panic",
  "For every text and every accepted delimiter configuration the parser returns a tree or an error: every slice it takes of the text lies on character boundaries in range, everything it unwraps is there, no counter over- or underflows, nothing is taken out of an empty collection, and calls that abort are unreachable.",
  ["inputs"], "every template text, of characters of any width, truncated anywhere",
  "The tests parse some hundreds of mostly well-formed ASCII texts; a panic needs one wide character, one depth or one truncation in the wrong place.",
  [L_, N_, "askama_parser/src/expr.rs"], [("excerpt and position of errors", L_ + " Ast::from_str"), ("slices", N_ + " Lit::split_ws_parts; expr.rs nested_parenthesis"), ("counters", L_ + " Level, State::enter_loop, leave_loop")])

CF = "askama_derive/src/config.rs"
p("C01", "An unusable delimiter configuration is always rejected",
  "A custom syntax is accepted only if every delimiter has at least two bytes, none contains whitespace or equals an operator of the expression language, and none of the opening delimiters is a prefix of another one; unset delimiters take their default values, and duplicate syntax names or an unknown default syntax are rejected.",
  ["configurations"], "every configuration file",
  "Tests try a handful of bad configurations; the check is over all six delimiters and all pairs.",
  [CF], [("validation", CF + " TryInto<Syntax> for RawSyntax"), ("operators", L_ + " (TWO_PLUS_CHAR_OPS)"), ("registry", CF + " Config::new")])
p("C02", "Configuration values take precedence in the documented order",
  "The whitespace default is the template attribute's if given, else the configuration file's, else preserve; the configured template directories, relative to the crate root, replace the default one and are searched in order; the syntax of a template is the one it names, unknown names being an error, else the configured default; a named configuration file that does not exist is an error, while a missing default one means defaults.",
  ["configurations"], "every combination of attribute and configuration file",
  "Tests sample single settings.",
  [CF], [("precedence", CF + " Config::new"), ("search", CF + " Config::find_template"), ("file", CF + " read_config_file")])
p("C03", "Template attributes are read exactly or rejected",
  "Each template attribute argument sets exactly the option of its name from a literal of its type; unknown arguments, non-literal or wrongly typed values, a repeated template attribute, both or neither of path and source, and source without ext are rejected with an error.",
  ["programs"], "every template attribute",
  "Tests sample a few invalid attributes.",
  ["askama_derive/src/input.rs"], [("attribute reader", "askama_derive/src/input.rs TemplateArgs::new"), ("combination", "askama_derive/src/input.rs TemplateInput::new")])
p("W01", "Web integrations answer with the template and never mask an error as success",
  "For each supported web framework, a successfully rendered template yields a successful response with the rendered text as body and the template's MIME type as content type, and a template that fails to render yields an error status.",
  ["inputs", "fault_sequences"], "every template and render failure, for all four frameworks",
  "The integration tests only render templates that succeed; the original axum integration answered 200 on failure.",
  ["askama_axum/src/lib.rs", "askama_actix/src/lib.rs", "askama_rocket/src/lib.rs", "askama_warp/src/lib.rs", G], [("conversions", "askama_*/src/lib.rs into_response, try_into_response, respond"), ("generated impls", G + " impl_*_responder, impl_axum_into_response, impl_warp_reply")])
p("T01", "Resolving inheritance terminates for every set of templates",
  "Deriving a template terminates for every set of template files that extend or import each other: a chain of extends that leads back to a template on it is reported as an error naming the dependency chain, and every file is loaded a bounded number of times.",
  ["programs"], "every graph of extends and import relations",
  "Tests contain self-extending templates only; a cycle of two hung the original tree.",
  ["askama_derive/src/input.rs", "askama_derive/src/heritage.rs"], [("cycle detection", "askama_derive/src/input.rs find_used_templates"), ("ancestor walk", "askama_derive/src/heritage.rs Heritage::new")])
p("D01", "Deriving yields this template's Template and Display for this type",
  "For every annotated type, deriving generates one implementation of Template and one of Display for exactly that type, with its own generic parameters, bounds and where clause; the EXTENSION and MIME_TYPE of the implementation are those of this template (the extension given, or else that of its path) and its SIZE_HINT is the one computed for it; formatting a template renders it once into the formatter and fails exactly if rendering fails; and what the macro returns is exactly the code generated for the template named in the attribute.",
  ["programs"], "every annotated type with any generics, every template, every writer that fails at any point",
  "The tests never let Display fail, look at EXTENSION and MIME_TYPE of few templates and derive for a handful of generic types.",
  [G, "askama_derive/src/lib.rs"], [("header", G + " write_header"), ("constants", G + " impl_template"), ("display", G + " impl_display"), ("result", "askama_derive/src/lib.rs build_template")])
p("D02", "Every error found while compiling a template fails the build",
  "Whenever reading the attribute or the configuration, finding, reading or parsing a template file, or generating code for any node fails, deriving ends in a compile error with that failure's own text: no failure is dropped, replaced by a default, or skipped so that a template with an error compiles to something else.",
  ["programs", "configurations"], "every failing operation on every path through the derive crate",
  "The tests contain some dozens of failing templates, each for one error; whether an error is propagated is a matter of each of some 200 call sites.",
  ["askama_derive/src/lib.rs", "askama_derive/src/input.rs", CF, G], [("macro", "askama_derive/src/lib.rs derive_template"), ("error type", "askama_derive/src/lib.rs CompileError"), ("propagation", "all of askama_derive")])
p("F01", "The text of a template is its file's content, less one final line break",
  "The text that is parsed for a template file is exactly the content of the file at its path without its one final line break, if it ends in one; the text of an inline template is exactly the source given in the attribute; parsing covers this text from its beginning to its end; and a file that cannot be read is an error.",
  ["inputs"], "every content of a template file and every inline source",
  "The tests load three small files; line breaks, carriage returns, blanks and wide characters at the ends are not sampled.",
  [CF, "askama_derive/src/input.rs", L_], [("loading", CF + " get_template_source"), ("inline source", "askama_derive/src/input.rs find_used_templates"), ("whole text", L_ + " Parsed::new, Ast::from_str")])
p("N01", "The library functions behind the filters compute the right values",
  "Unicode case mapping, white space, number formatting and rounding, percent encoding and JSON serialisation, which the filters delegate to the standard library and to other crates, are right for every input.",
  ["inputs"], "every number and string",
  "Tests sample some values.",
  ["askama/src/filters/mod.rs"], [("filters", "askama/src/filters/mod.rs")])
p("N02", "The code generator never panics",
  "For every parsed template, configuration and template attribute the derive macro either produces code or a compile error and never panics or overflows its stack behind the parser.",
  ["programs", "configurations"], "every input of the derive macro",
  "Tests sample valid templates and some invalid ones.",
  ["askama_derive/src/lib.rs", "askama_derive/src/generator.rs"], [("derive", "askama_derive/src/lib.rs derive_template")])
p("N03", "Generated code for a well-typed template compiles and has the meant types",
  "If every expression of a template is well typed, the generated code compiles, without warnings, and each expression has the type the template author expects.",
  ["programs"], "every template",
  "Tests sample templates.",
  [G], [("generator", G)])
p("N04", "The size hint is close to the size of the output",
  "The size hint of a template estimates the length of its output so that rendering rarely reallocates.",
  ["inputs"], "every template and input",
  "It is a statement about performance.",
  [G], [("size hint", G + " handle")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
