"""Obligation bookkeeping, evidence, known findings; helpers shared by the rule modules."""
import json, os, sys, time, traceback
import facts, mir
from flow import Engine, Undecided, State
from terms import *

VERIF = facts.VERIF
CRATES = ["askama", "askama_derive", "askama_escape", "askama_parser"]


class Missing(Exception):
    """An anchor (function, type, constant) the rule needs is not there."""


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = []  # (key, status, message, where)
        self.floor = 1
        self.functions = set()
        self.paths = 0
        self.rule = ""
        self.assumptions = []
        self.notes = []

    # -------------------------------------------------------------- obligations
    def ok(self, key, msg="", where=""):
        self.obl.append((key, "ok", msg, where))

    def bad(self, key, msg, where=""):
        self.obl.append((key, "violation", msg, where))

    def undecided(self, key, msg, where=""):
        self.obl.append((key, "undecided", msg, where))

    def check(self, cond, key, msg, where=""):
        (self.ok if cond else self.bad)(key, msg, where)
        return cond

    def section(self, name, fn, *a):
        """Run one group of obligations; an idiom outside the vocabulary leaves the group undecided."""
        try:
            return fn(*a)
        except facts.FactsError:
            raise
        except Missing as e:
            self.undecided(name, "anchor not found: %s" % e)
        except Undecided as e:
            self.undecided(name, "not analysable: %s" % e)
        except Exception as e:
            self.undecided(name, "not analysable: %s: %s" % (type(e).__name__, e))
            if os.environ.get("RULE_DEBUG"):
                traceback.print_exc()

    def finish(self):
        pid = self.pid
        known = load_known(pid)
        seen, viol, kf = set(), [], []
        for k, s, m, w in self.obl:
            if s == "violation" and k not in seen:
                seen.add(k)
                (kf if k in known else viol).append((k, m, w))
        n = {s: sum(1 for o in self.obl if o[1] == s) for s in ("ok", "violation", "undecided")}
        for k, m, w in kf:
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[k], k))
        und = [o for o in self.obl if o[1] == "undecided"]
        for k, s, m, w in und:
            print("undecided: %s: %s %s" % (k, m, w))
        ev = {
            "property": pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations": len(self.obl), "discharged": n["ok"], "violated": n["violation"],
                "undecided": n["undecided"], "functions_analysed": len(self.functions), "paths": self.paths,
                "functions": sorted(self.functions)[:80],
                "samples": [{"obligation": k, "status": s, "detail": m, "where": w} for k, s, m, w in self.obl[:12]],
                "known_findings": [k for k, _, _ in kf],
            },
            "wall_s": round(time.time() - self.t0, 2), "violations": len(viol),
            "assumptions": self.assumptions + ["rustc's MIR of the current tree (nightly front end) is the program",
                                               "models of std functions in vlib/models.py"],
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        print("%s: %d obligations, %d discharged, %d violated (%d known), %d undecided; %d functions, %d paths, %.1f s" % (
            pid, len(self.obl), n["ok"], n["violation"], len(kf), n["undecided"], len(self.functions), self.paths,
            time.time() - self.t0))
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        if viol:
            with open(rp, "w") as f:
                for k, m, w in viol:
                    f.write("%s\n    %s\n    at %s\n" % (k, m, w))
            for k, m, w in viol[:8]:
                print("violated: %s: %s [%s]" % (k, m[:400], w))
            if len(viol) > 8:
                print("… and %d more" % (len(viol) - 8))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        if os.path.exists(rp):
            os.unlink(rp)
        decided = n["ok"] + n["violation"]
        if decided == 0 or decided < 0.5 * self.floor and not n["undecided"]:
            print("error: only %d obligations could be decided, %d expected" % (decided, self.floor))
            return 2
        return 0


def load_known(pid):
    """known_findings.txt: `known: property=<id> key=<key> :: <what fails>`; `fixed:` lines suppress nothing."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: property=%s key=" % pid):
                k, _, what = l[len("known: property=%s key=" % pid):].partition(" :: ")
                out[k] = what
    return out


class Ctx:
    """The program under analysis and the report of one check."""

    def __init__(self, pid, tier):
        self.R = Report(pid, tier)
        self.tier = tier
        self._p = None

    @property
    def P(self):
        if self._p is None:
            self._p = mir.Prog(facts.ensure(), CRATES)
        return self._p

    def integ(self, tag):
        """Program of one integration build."""
        d = facts.ensure((tag,))
        p = mir.Prog.__new__(mir.Prog)
        p.crates, p._exp = {}, {}
        for n in os.listdir(d):
            if n.endswith("." + tag + ".json"):
                c = mir.Crate(os.path.join(d, n))
                p.crates[c.name] = c
        return p

    def body(self, crate, path, prog=None):
        b = (prog or self.P).crates[crate].by.get(path)
        if b is None:
            raise Missing("%s::%s" % (crate, path))
        return b

    def engine(self, crate, vocab=None, prog=None, **kw):
        rec = kw.pop("record", None)
        E = Engine(prog or self.P, crate, vocab=vocab, **kw)
        if rec is not None:
            E.record_calls = rec
        return E

    def run(self, E, body):
        r = E.run(body)
        self.R.functions.add(body.crate + "::" + body.npath)
        self.R.functions |= {body.crate + "::" + x for x in E.inlined}
        self.R.paths += len(r)
        return r


def flat_events(evs):
    """All recorded events, those inside loops included."""
    for e in evs:
        if e[0] == "loop":
            for a in e[2]:
                yield from flat_events(a[1])
        else:
            yield e


WRITERS = {"write_str": "s", "write_char": "c", "write_fmt": "f", "push_str": "s", "push": "c", "fmt": "d", "write_all": "s",
           "write": "w"}


def written(e):
    """(writer, pieces) of a write event: pieces are ("s", text) or ("v", term, spec); None if e is no write."""
    n = e[1].split("::")[-1]
    k = WRITERS.get(n)
    a = e[2]
    if k is None or len(a) < 2:
        return None
    if k == "d":
        return a[1], [("v", a[0], "")] if "Display" in e[1] else None
    if k == "w":
        if a[1][0] != "fmt":
            return None
        k = "f"
    if k == "f":
        if a[1][0] != "fmt":
            return a[0], [("args", a[1])]
        return a[0], [("s", x[1]) if x[0] == "s" else ("v", x[1], x[2]) for x in a[1][1]]
    x = a[1]
    if x[0] in ("str", "char"):
        return a[0], [("s", x[1])]
    if x[0] == "bytes":
        return a[0], [("s", bytes(x[1]).decode("utf8", "replace"))]
    if x[0] == "code":
        return a[0], [("s", t[1]) if t[0] == "s" else ("v",) + t[1:] for t in x[1]]
    return a[0], [("v", x, "")]


def base(v):
    while v[0] == "mut":
        v = v[1]
    return v


def bodies_of(C, crate, prefix):
    return [b for b in C.P.crates[crate].bodies if b.npath.startswith(prefix) and b.kind in ("Fn", "AssocFn")]


# ------------------------------------------------------------------ concrete evaluation of terms
class NoVal(Exception):
    pass


def ev(t, env):
    """Value of a term under env (term -> python value); NoVal if it depends on anything else."""
    if t in env:
        return env[t]
    k = t[0]
    if k == "int" or k == "bool":
        return t[1]
    if k == "char":
        return ord(t[1])
    if k == "str":
        return t[1]
    if k == "bytes":
        return t
    if k == "bin":
        a, b = ev(t[2], env), ev(t[3], env)
        op = t[1]
        if op == "Lt":
            return a < b
        if op == "Le":
            return a <= b
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mul":
            return a * b
        if op == "BitAnd":
            return a & b
        if op == "BitOr":
            return a | b
        if op == "BitXor":
            return a ^ b
        if op == "Shl":
            return a << b
        if op == "Shr":
            return a >> b
        if op == "Rem" and b:
            return a % b
        if op == "Div" and b:
            return a // b
    if k == "eq":
        return ev(t[1], env) == ev(t[2], env)
    if k == "empty" and t[1][0] == "code":
        if any(x[0] == "s" and x[1] or x[0] == "h" and x[1][0] in ("expr", "filter", "attr", "args", "target") or x[0] == "h" and x[1][:2] == ("call", "normalize_identifier") for x in t[1][1]):
            return False
        if not t[1][1]:
            return True
        raise NoVal(pp(t)[:80])
    if k in ("empty", "lenof") and t[1] not in env and t[1][0] == "range" and len(t[1]) == 4:
        n = ev(t[1][3], env) - ev(t[1][2], env)
        if n < 0:
            raise NoVal("range out of bounds")
        return n == 0 if k == "empty" else n
    if k == "empty":
        return len(ev(t[1], env)) == 0
    if k == "not":
        return not ev(t[1], env)
    if k == "and":
        return ev(t[1], env) and ev(t[2], env)
    if k == "or":
        return ev(t[1], env) or ev(t[2], env)
    if k == "int2int" or k == "cast":
        v = ev(t[1], env)
        n = {"u8": 8, "u16": 16, "u32": 32}.get(t[2])
        return v & ((1 << n) - 1) if n and isinstance(v, int) else v
    if k == "idx" and t[1][0] in ("arr", "vec"):
        i = ev(t[2], env)
        if not 0 <= i < len(t[1][1]):
            raise NoVal("index out of bounds")
        return ev(t[1][1][i], env)
    if k == "idx" and t[1][0] == "bytes":
        return t[1][1][ev(t[2], env)]
    if k == "agg":
        return ("agg", t[2], tuple(ev(x, env) for _, x in t[3]))
    if k == "isv":
        v = ev(t[1], env)
        if isinstance(v, tuple) and v and v[0] == "agg":
            return v[1] == t[2]
    if k == "as":
        v = ev(t[1], env)
        if isinstance(v, tuple) and v and v[0] == "agg" and v[1] == t[2]:
            return v
    if k == "fld":
        v = ev(t[1], env)
        if isinstance(v, tuple) and v and v[0] == "agg" and t[2].isdigit():
            return v[2][int(t[2])]
    if k == "call" and len(t) >= 3 and t[1].split("::")[-1] == "contains" and len(t[2]) == 2 and t[2][0][0] in ("arr", "vec"):
        v = ev(t[2][1], env)
        return v in [ev(x, env) for x in t[2][0][1]]
    if k == "call" and len(t) >= 3 and t[1].split("::")[-1] == "contains" and len(t[2]) == 2 and is_agg(t[2][0]) and t[2][0][2] in ("Range", "RangeInclusive"):
        f, v = fields(t[2][0]), ev(t[2][1], env)
        lo, hi = ev(f["start"], env), ev(f["end"], env)
        return lo <= v < hi if t[2][0][2] == "Range" else lo <= v <= hi
    if k in ("arr", "vec") and not any(x[0] == "star" for x in t[1]):
        return [ev(x, env) for x in t[1]]
    if k == "lenof":
        v = ev(t[1], env)
        return len(v.encode("utf-8")) if isinstance(v, str) else len(v)
    if k in ("all", "any") and len(t) == 3 and t[1][0] == "iter" and not t[1][2]:
        rs = []
        for x in ev(t[1][1], env):
            e2 = dict(env)
            e2[("elem", t[1][1])] = e2[("elem", t[1])] = x
            r = None
            for conds, val in t[2]:
                cs = [evcond(c, e2) for c in conds]
                if None in cs:
                    raise NoVal(pp(t)[:80])
                if all(cs):
                    r = bool(ev(val, e2))
                    break
            if r is None:
                raise NoVal(pp(t)[:80])
            rs.append(r)
        return all(rs) if k == "all" else any(rs)
    if k == "call" and len(t) >= 3 and t[1].split("::")[-1] == "eq_ignore_ascii_case":
        a = [ev(x, env) for x in t[2]]
        if all(isinstance(x, str) for x in a):
            return a[0].lower() == a[1].lower() if a[0].isascii() and a[1].isascii() else False
    if k == "call" and len(t) >= 3 and len(t[2]) == 2 and t[2][1][0] == "fn" and t[1].split("::")[-1] in ("contains", "starts_with", "ends_with"):
        # a string searched for characters of a class
        v, f = ev(t[2][0], env), t[1].split("::")[-1]
        if isinstance(v, str):
            cs = {"contains": v, "starts_with": v[:1], "ends_with": v[-1:]}[f]
            return any(ev(("call", t[2][1][1], (("char", x),)), env) for x in cs)
    if k == "call" and len(t) >= 3:
        f = t[1].split("::")[-1]
        a = [ev(x, env) for x in t[2]]
        c = chr(a[0]) if a and isinstance(a[0], int) and 0 <= a[0] < 0x110000 else None
        if f in ("min", "max") and len(a) == 2:
            return min(a) if f == "min" else max(a)
        if f in ("from", "into") and len(a) == 1 and isinstance(a[0], int):
            return a[0]
        if f in ("checked_sub", "checked_add") and len(a) == 2:
            n = a[0] - a[1] if f == "checked_sub" else a[0] + a[1]
            return ("agg", "Some", (n,)) if 0 <= n < 1 << 64 else ("agg", "None", ())
        if f == "get" and len(a) == 2 and isinstance(a[0], list) and isinstance(a[1], int):
            return ("agg", "Some", (a[0][a[1]],)) if 0 <= a[1] < len(a[0]) else ("agg", "None", ())
        if f in ("copied", "cloned") and len(a) == 1 and isinstance(a[0], tuple) and a[0][:1] == ("agg",):
            return a[0]
        if f == "flatten" and len(a) == 1 and isinstance(a[0], tuple) and a[0][:1] == ("agg",):
            return a[0][2][0] if a[0][1] == "Some" else a[0]
        if f == "saturating_sub" and len(a) == 2:
            return max(a[0] - a[1], 0)
        if f in ("saturating_add", "wrapping_add") and len(a) == 2:
            return a[0] + a[1]
        if f in ("starts_with", "ends_with", "contains") and len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], (str, int)) and not isinstance(a[1], bool):
            x = a[1] if isinstance(a[1], str) else chr(a[1])
            return a[0].startswith(x) if f == "starts_with" else a[0].endswith(x) if f == "ends_with" else x in a[0]
        if f == "contains" and isinstance(a[0], list):
            return a[1] in a[0]
        if f == "binary_search" and len(a) == 2 and isinstance(a[0], list) and a[0]:
            # as std does it; in a list that is not in order, an element may be missed
            lo, n = 0, len(a[0])
            while n > 1:
                lo = lo + n // 2 if a[0][lo + n // 2] <= a[1] else lo
                n -= n // 2
            return ("agg", "Ok" if a[0][lo] == a[1] else "Err", (lo,))
        if f == "chars" and isinstance(a[0], str):
            return [ord(x) for x in a[0]]
        if f in ("first_char", "last_char") and isinstance(a[0], str):
            return [ord(x) for x in (a[0][:1] if f == "first_char" else a[0][-1:])]
        if f in ("bytes", "as_bytes") and isinstance(a[0], str):
            return list(a[0].encode("utf-8"))
        if f == "count" and isinstance(a[0], (list, str)):
            return len(a[0])
        if f == "trim" and isinstance(a[0], str):
            return a[0].strip()
        if f == "is_whitespace" and c is not None:
            return c.isspace() and c not in "\x1c\x1d\x1e\x1f"
        if f in ("is_ascii",) and c is not None:
            return a[0] < 128
        if f == "is_ascii_alphanumeric" and c is not None:
            return a[0] < 128 and c.isalnum()
        if f == "is_ascii_whitespace" and c is not None:
            return c in " \t\n\r\x0c"
    if "@hook" in env:
        return env["@hook"](t, env)
    raise NoVal(pp(t)[:80])


SAMPLES = (0, 1, 2, 3, 7, 63, 64, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537, 1 << 32, (1 << 32) + 1, (1 << 63) - 1)


def samples(*terms):
    """Numbers that distinguish the comparisons and casts in the terms."""
    out = set(SAMPLES)
    for t in terms:
        for x in walk(t):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "int" and isinstance(x[1], int):
                out |= {x[1] - 1, x[1], x[1] + 1}
    return sorted(x for x in out if 0 <= x < 1 << 64)


def evcond(c, env):
    """True/False/None (undetermined) of a path condition."""
    try:
        if c[0] == "t":
            return bool(ev(c[1], env)) == c[2]
        if c[0] == "is":
            v = ev(c[1], env)
            return v[1] == c[2] if isinstance(v, tuple) and v and v[0] == "agg" else None
        if c[0] == "not":
            v = ev(c[1], env)
            return v[1] not in c[2] if isinstance(v, tuple) and v and v[0] == "agg" else None
        if c[0] == "any":
            rs = []
            for alt in c[1]:
                r = [evcond(x, env) for x in alt]
                rs.append(False if False in r else (None if None in r else True))
            return True if True in rs else (None if None in rs else False)
    except NoVal as e:
        if "out of bounds" in str(e):
            raise
        return None
    except (TypeError, IndexError):
        return None
    return None
