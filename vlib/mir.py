"""Loads MIR facts and gives access to bodies, ADTs and constants with normalised names."""
import json, os, re

KNOWN = {"askama", "askama_derive", "askama_escape", "askama_parser", "askama_axum", "askama_actix",
         "askama_rocket", "askama_warp"}


_SG = {}
_STD = re.compile(r"(?<![\w:])(core|alloc|nom::lib::std)::")


def strip_generics(p):
    """`generator::Generator::<'a>::handle` -> `generator::Generator::handle`; core/alloc are spelled std."""
    r = _SG.get(p)
    if r is None:
        r = _SG[p] = _STD.sub("std::", _strip(p))
    return r


def _strip(p):
    out, i, depth = [], 0, 0
    n = len(p)
    while i < n:
        c = p[i]
        if c == "<":
            # a leading `<X as Trait>` (or `<X>`) is kept, generics are removed
            qself = depth == 0 and (i == 0 or (p[i - 1] in " (&<,"))
            if qself and i == 0:
                # find matching >
                j, d = i, 0
                while j < n:
                    if p[j] == "<":
                        d += 1
                    elif p[j] == ">" and p[j - 1] != "-":
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                inner = p[i + 1:j]
                k = split_as(inner)
                if k is not None:
                    out.append("<%s as %s>" % (strip_generics(inner[:k]), strip_generics(inner[k + 4:])))
                else:
                    out.append("<%s>" % strip_generics(inner))
                i = j + 1
                continue
            if out and out[-2:] == [":", ":"]:
                out = out[:-2]
            j, d = i, 0
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(c)
        i += 1
    return "".join(out)


def split_as(s):
    d = 0
    for i in range(len(s)):
        if s[i] == "<":
            d += 1
        elif s[i] == ">" and s[i - 1] != "-":
            d -= 1
        elif d == 0 and s.startswith(" as ", i):
            return i
    return None


class Body:
    __slots__ = ("crate", "path", "npath", "raw", "kind", "argc", "blocks", "locals", "file", "line", "loops",
                 "selfty", "trait", "vis", "parent", "sig")

    def __init__(self, crate, raw):
        self.crate = crate
        self.raw = raw
        self.path = raw["path"]
        self.npath = strip_generics(raw["path"])
        self.kind = raw["kind"]
        self.argc = raw["argc"]
        self.blocks = raw["blocks"]
        self.locals = raw["locals"]
        self.file = raw["file"]
        self.line = raw["line"]
        self.selfty = raw.get("self_ty")
        self.trait = raw.get("trait")
        self.vis = raw.get("vis")
        self.parent = raw.get("parent")
        self.sig = raw.get("sig", "")
        self.loops = None

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[1]]
        return []

    def find_loops(self):
        """header -> set of blocks of the natural loop."""
        if self.loops is not None:
            return self.loops
        n = len(self.blocks)
        order, seen = [], set()
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = list(reversed(order))
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        dom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in dom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = dom[x]
                                while idx[y] > idx[x]:
                                    y = dom[y]
                            new = x
                if new is not None and dom.get(b) != new:
                    dom[b] = new
                    changed = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = dom[b]

        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dominates(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(preds[x])
        self.loops = loops
        return loops

    def calls(self):
        """Yield (block index, callee constant or operand, args, dest, line)."""
        for i, b in enumerate(self.blocks):
            if b.get("cleanup"):
                continue
            t = b["t"]
            if t[0] == "call":
                yield i, t[1], t[2], t[3], t[5]

    def where(self, line=None):
        return "%s:%s" % (self.file, line if line is not None else self.line)


class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.name = d["crate"]
        self.bodies = [Body(self.name, b) for b in d["bodies"]]
        self.by = {}
        for b in self.bodies:
            self.by[b.npath] = b
        self.consts = {strip_generics(c["path"]): c for c in d["consts"]}
        self.const_list = d["consts"]
        self.adts = {strip_generics(a["path"]): a for a in d["adts"]}
        self.impls = d["impls"]


class Prog:
    """A set of crates. Paths are qualified: `crate::module::item`, `<crate::T as Trait>::m` is looked up in its own crate."""

    def __init__(self, factsdir, names):
        self.crates = {}
        for n in names:
            c = Crate(os.path.join(factsdir, n + ".json"))
            self.crates[c.name] = c
        self._exp = {}

    def body(self, crate, npath):
        """Find the body of npath as mentioned inside `crate`."""
        c = self.crates.get(crate)
        if c is not None and npath in c.by:
            return c.by[npath]
        m = re.match(r"^<?([a-z_]+)::", npath)
        if m and m.group(1) in self.crates:
            other = self.crates[m.group(1)]
            rest = npath.replace(m.group(1) + "::", "")
            if rest in other.by:
                return other.by[rest]
            # re-exported names: match on the last two segments when unique
            tail = "::".join(rest.split("::")[-2:])
            key = (m.group(1), tail)
            if key not in self._exp:
                c2 = [b for p, b in other.by.items() if p == tail or p.endswith("::" + tail)]
                self._exp[key] = c2[0] if len(c2) == 1 else None
            return self._exp[key]
        return None
