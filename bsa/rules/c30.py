"""Revision specifiers select the revisions they describe.

find_revisions is analysed for one specifier per production of the language;
the summary term of the answer (an expression over the history) is compared
with the meaning of the specifier on an abstract history that has one revision
for every combination of the attributes a term can look at."""
import itertools
import re

from ..interp import Budget
from .util import *


class Unknown(Exception):
    pass


class Error(Exception):
    """the expression raises"""


class Rev:
    def __init__(self, i, ts=None, tags=(), server="", trust="TRUSTED", clean=True):
        self.i, self.timestamp, self.tags, self.server = i, 10 * i if ts is None else ts, frozenset(tags), server
        self.orig_tags = frozenset()
        self.trust, self.clean, self.uuid = trust, clean, f"uuid{i}"

    def __repr__(self):
        return f"r{self.i}({','.join(sorted(self.tags))} {self.server or 'local'} {self.trust} " \
               f"{'clean' if self.clean else 'partial'})"


STATS = object()
COMBOS = list(itertools.product(("", "a", "b", "ab"), ("", "srv"), ("TRUSTED", "DISTRUSTED", "VERIFIED"),
                                (True, False)))
# order does not follow any attribute; two revisions each have the same time
HISTORY = [Rev(i, i // 2 * 20, tuple(t), s, tr, c)
           for i, (t, s, tr, c) in enumerate(COMBOS[k * 29 % 48] for k in range(48))]


class Eval:
    """The value of a term on an abstract history"""

    def __init__(self, st, hist, trust, consts=None):
        self.st, self.hist, self.trust, self.consts = st, hist, trust, consts or {}

    def path(self):
        """Is the path taken on this history? True / None"""
        facts = self.st.mon if isinstance(self.st.mon, frozenset) else self.st.facts.items()
        for a, v in facts:
            try:
                if bool(self.val(a, {})) != v:
                    return False
            except Error:
                return False
            except Unknown:
                pass
        return True

    def items(self, t, env):
        v = self.val(t, env)
        if not isinstance(v, (list, tuple, dict, frozenset, set, range)):
            raise Unknown(show(t))
        return list(v)

    def bindings(self, it, alts):
        """the terms that are the element x of `it`, and those that are x[1]"""
        one, two = [], []
        base = it
        while base[0] == "conv" and base[1] in ("list", "tuple", "iter"):
            base = base[2]
        c = base
        while c[0] == "conv" and c[1] in ("list", "tuple", "iter", "reversed") or \
                c[0] == "app" and c[1] == "dict.fromkeys":
            c = c[2] if c[0] == "conv" else c[2][0]
        if c[0] == "comp":
            # its elements are those of what it was made from
            for _, v in c[2]:
                if v[0] == "elem":
                    one.append(v)
        inner = base[2] if base[0] == "conv" and base[1] == "enumerate" else None
        if base[0] == "app" and base[1] == "enumerate":
            inner = base[2][0]
        own, second = set(), set()
        for a in alts:
            for s in subterms(a):
                if s[0] == "elem" and s[1] in (it, base):
                    own.add(s)
                elif s[0] == "elem" and inner is not None and s[1] == inner:
                    second.add(s)
        # those of loops around this one have a lower number
        if own:
            one.append(max(own, key=lambda s: s[2]))
        if second:
            two.append(max(second, key=lambda s: s[2]))
        return one, two

    def comp(self, t, env):
        res = []
        c = t[3]
        while c[0] == "conv" and c[1] in ("list", "tuple", "iter", "reversed") or \
                c[0] == "app" and c[1] == "dict.fromkeys":
            c = c[2] if c[0] == "conv" else c[2][0]
        # what selected the elements is known of them
        known = {f for a in c[2] for f in a[0]} if c[0] == "comp" else set()
        alts = []
        for facts, val in t[2]:
            facts = [f for f in facts if f not in known]
            alts.append((facts, val, *self.bindings(t[3], [val] + [a for a, _ in facts])))
        for x in self.items(t[3], env):
            for facts, val, one, two in alts:
                e = dict(env)
                e.update((s, x) for s in one)
                e.update((s, x[1]) for s in two)
                if all(bool(self.val(a, e)) == v for a, v in facts):
                    res.append(self.val(val, e))
                    break
        return res

    def val(self, t, env):
        if t in env:
            return env[t]
        if t in self.consts:
            r = self.consts[t]
            if isinstance(r, Exception):
                raise r
            return r
        k = t[0]
        f = getattr(self, "v_" + k, None)
        if f is None:
            raise Unknown(show(t))
        return f(t, env)

    def v_c(self, t, env):
        return t[2]

    def v_typed(self, t, env):
        return self.val(t[1], env)

    def v_enum(self, t, env):
        return t[2]

    def v_tuple(self, t, env):
        return tuple(self.val(x, env) for x in t[1])

    def v_attr(self, t, env):
        if t[2] == "history" and t[1][0] == "sym":
            return self.hist
        b = self.val(t[1], env)
        if isinstance(b, Rev):
            if t[2] == "stats":
                return {"bytes_written": 1, "duration": 1} if b.clean else {"bytes_written": 0}
            if t[2] in ("tags", "orig_tags", "server", "trust", "uuid", "timestamp"):
                return getattr(b, t[2])
        if t[2] in ("value", "name") and isinstance(b, str) and b in self.trust:
            return self.trust[b] if t[2] == "value" else b
        raise Unknown(show(t))

    def v_comp(self, t, env):
        r = self.comp(t, env)
        return dict(r) if t[1] == "dict" else r

    def v_conv(self, t, env):
        n = t[1]
        xs = self.items(t[2], env)
        if n in ("list", "tuple", "iter"):
            return xs
        if n == "reversed":
            return xs[::-1]
        if n == "enumerate":
            return list(enumerate(xs))
        if n in ("set", "frozenset"):
            return set(xs)
        raise Unknown(n)

    def v_obj(self, t, env):
        its = self.st.heap.get((t, "#c"))
        if its is None or t[2] not in ("list", "tuple", "set"):
            raise Unknown(show(t))
        res = []
        for i in its:
            if i[0] == "v":
                res.append(self.val(i[1], env))
            elif i[0] == "all":
                res += self.items(i[1], env)
            else:
                raise Unknown(i[0])
        return res

    def v_bin(self, t, env):
        a, b = self.val(t[2], env), self.val(t[3], env)
        if isinstance(a, range) or isinstance(b, range):
            raise Unknown("range")
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                    "//": lambda: a // b, "|": lambda: a | b, "&": lambda: a & b}[t[1]]()
        except (KeyError, TypeError):
            if t[1] in ("-", "|", "&", "/", "//") and self.is_list(t[2]) and self.is_list(t[3]):
                raise Error("TypeError")
            raise Unknown(show(t))

    @staticmethod
    def is_list(t):
        while t[0] == "typed":
            t = t[1]
        return t[0] == "obj" and t[2] == "list" or t[0] == "comp" and t[1] == "list" or \
            t[0] == "conv" and t[1] == "list" or t[0] == "app" and t[1].endswith(".find_revisions")

    def v_un(self, t, env):
        a = self.val(t[2], env)
        if t[1] == "-":
            return -a
        raise Unknown(show(t))

    def v_not(self, t, env):
        return not self.val(t[1], env)

    def v_cmp(self, t, env):
        a, b = self.val(t[2], env), self.val(t[3], env)
        try:
            return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b,
                    ">": lambda: a > b, ">=": lambda: a >= b, "in": lambda: a in b,
                    "not in": lambda: a not in b, "is": lambda: a is b, "is not": lambda: a is not b}[t[1]]()
        except (KeyError, TypeError):
            raise Unknown(show(t))

    def v_idx(self, t, env):
        b, i = self.val(t[1], env), self.val(t[2], env)
        if isinstance(b, dict):
            raise Unknown("dict")
        try:
            return b[i]
        except IndexError:
            raise Error("IndexError")
        except TypeError:
            raise Unknown(show(t))

    def v_slice(self, t, env):
        b = self.val(t[1], env)
        lo, hi = self.val(t[2], env), self.val(t[3], env)
        try:
            return b[lo:hi]
        except TypeError:
            raise Unknown(show(t))

    def v_app(self, t, env):
        n, a = t[1], t[2]
        if n == "dict.fromkeys" and len(a) == 1:
            try:
                return dict.fromkeys(self.items(a[0], env))
            except TypeError:
                raise Error("TypeError")
        if n in ("list", "tuple") and len(a) == 1:
            return self.items(a[0], env)
        if n in ("min", "max") and not t[3]:
            vs = [self.val(x, env) for x in a] if len(a) > 1 else self.items(a[0], env)
            if not vs:
                raise Error("ValueError")
            return (min if n == "min" else max)(vs)
        if n in ("math.ceil", "math.floor", "int", "float", "abs", "len", "bool", "round"):
            import math
            f = {"math.ceil": math.ceil, "math.floor": math.floor, "int": int, "float": float, "abs": abs,
                 "len": len, "bool": bool, "round": round}[n]
            try:
                return f(self.val(a[0], env))
            except TypeError:
                raise Unknown(show(t))
        if n == ".index" and len(a) == 2:
            try:
                return list(self.items(a[0], env)).index(self.val(a[1], env))
            except ValueError:
                raise Error("ValueError")
        if n.endswith(".Trust") and len(a) == 1:
            v = self.val(a[0], env)
            for name, x in self.trust.items():
                if x == v:
                    return name
            raise Error("ValueError")
        if n == ".get" and len(a) >= 2:
            b = self.val(a[0], env)
            if isinstance(b, dict):
                return b.get(self.val(a[1], env), self.val(a[2], env) if len(a) > 2 else None)
        if n.endswith("Repository.find") and len(a) == 2:
            return ref_find(self.val(a[1], env), self.hist)
        if n.endswith("Repository.index_by_token") and len(a) == 2:
            return ref_index(self.val(a[1], env), self.hist)
        raise Unknown(show(t))


# ------------------------------------------------------------ the reference
def ref_find(spec, hist):
    """one revision: number, uuid, word"""
    if isinstance(spec, Rev):
        return spec
    if not isinstance(spec, str):
        raise Unknown(str(spec))
    spec = spec.strip()
    if spec.isdigit() and int(spec) < len(hist):
        return hist[-int(spec) - 1]
    for r in hist:
        if r.uuid == spec:
            return r
    if spec in ("last", "latest"):
        return hist[-1]
    if spec == "first":
        return hist[0]
    raise Error("KeyError")


DATES = {"2021-01-01": 45, "2021-01-02": 50, "2021-01-03": -5, "2021-01-04": 10000}


def ref_date(d, hist):
    """place of a time in the history"""
    le = [i for i, r in enumerate(hist) if r.timestamp <= d]
    ge = [i for i, r in enumerate(hist) if r.timestamp >= d]
    return ((le[-1] if le else -1) + (ge[0] if ge else len(hist))) / 2


def ref_index(spec, hist):
    if spec in DATES:
        return ref_date(DATES[spec], hist)
    return hist.index(ref_find(spec, hist))


def uniq(l):
    return list(dict.fromkeys(l))


def meaning(spec, hist):
    """The revisions a specifier stands for, after doc/man-backy.rst"""
    toks = [t.strip() for t in re.split(r"(\(|\)|,|&|\.\.)", spec) if t.strip()]

    def union(i):
        a, i = inter(i)
        while i < len(toks) and toks[i] == ",":
            b, i = inter(i + 1)
            a = uniq(a + b)
        return a, i

    def inter(i):
        a, i = rng(i)
        while i < len(toks) and toks[i] == "&":
            b, i = rng(i + 1)
            a = uniq(x for x in a if x in b)
        return a, i

    def rng(i):
        a = None
        if toks[i] != "..":
            a, i = atom(i)
        if i < len(toks) and toks[i] == "..":
            x = 0 if a is None else place(a)
            i += 1
            b = None
            if i < len(toks) and toks[i] not in (")", ",", "&"):
                b, i = atom(i)
            y = len(hist) - 1 if b is None else place(b)
            lo, hi = min(x, y), max(x, y)
            return [r for k, r in enumerate(hist) if lo <= k <= hi], i
        return (a if isinstance(a, list) else single(a)), i

    def place(a):
        if isinstance(a, list):
            return hist.index(a[0])
        return ref_index(a, hist)

    def atom(i):
        t = toks[i]
        if t == "(":
            a, i = union(i + 1)
            return a, i + 1
        if t in ("first", "last", "not", "reverse") and i + 1 < len(toks) and toks[i + 1] == "(":
            a, i = union(i + 2)
            return {"first": lambda: [a[0]], "last": lambda: [a[-1]],
                    "not": lambda: [r for r in hist if r not in a],
                    "reverse": lambda: a[::-1]}[t](), i + 1
        return t, i + 1

    def single(t):
        for p, f in (("server:", lambda r, x: r.server == x), ("tag:", lambda r, x: x in r.tags),
                     ("trust:", lambda r, x: r.trust == x.upper())):
            if t.startswith(p):
                return [r for r in hist if f(r, t[len(p):])]
        w = {"all": lambda r: True, "clean": lambda r: r.clean, "local": lambda r: not r.server,
             "remote": lambda r: bool(r.server)}.get(t)
        if w:
            return [r for r in hist if w(r)]
        return [ref_find(t, hist)]
    a, i = union(0)
    assert i == len(toks)
    return a


SPECS = [
    "all", "clean", "local", "remote", "tag:a", "tag:b", "tag:zzz", "server:srv", "server:", "server:other",
    "trust:verified", "trust:trusted", "trust:distrusted", "trust:VERIFIED", " tag:a ",
    "0", "1", "5", "last", "latest", "first", "uuid7",
    "tag:a,tag:b", "tag:b , local", "0,1,2", "tag:a,tag:b,server:srv", "tag:a&tag:b", "tag:a&local&clean",
    "clean & tag:b", "tag:a,tag:b&local", "local&tag:b,tag:a", "(tag:a,tag:b)&local", "local&(tag:a,tag:b)",
    "(tag:a)", "((tag:a))", "not(tag:a)", "not(all)", "not(tag:a,local)", "not(tag:a)&not(tag:b)",
    "first(tag:a)", "last(clean)", "last(tag:a&local)", "reverse(tag:a)", "reverse(not(clean))",
    "first(reverse(tag:a))", "last(first(all))", "first(all),last(all)", "not(first(all))",
    "1..3", "3..1", "..", "3..", "..3", "first..last", "last..first", "..&tag:a", "(1..3),tag:a",
    "5..5", "first(tag:a)..last(tag:a)", "(1..3)", "not(1..3)", "last(1..3)", "uuid3..uuid5",
    "2021-01-01..2021-01-02", "2021-01-02..2021-01-03", "2021-01-01..", "..2021-01-01", "2021-01-04..0",
    "2021-01-01..2021-01-01", "2021-01-02..2021-01-02", "2021-01-03..2021-01-04",
]


class Exact(Monitor):
    exact = True


class Paths(Monitor):
    """state: the conditions on the path (so that paths are kept apart)"""
    exact = True
    branches = True

    def init(self):
        return frozenset()

    def event(self, ev, st, I):
        if ev.kind == "fact":
            st.mon |= {(ev.args[0], ev.args[1] == TRUE)}


def compare(ctx, rule, entry, out, exc, hist, trust, expected, consts=None, construct=None):
    """The answer of the feasible paths, on the abstract history, is the expected one"""
    got = []
    for v, st in out:
        ev = Eval(st, hist, trust, consts)
        if not ev.path():
            continue
        try:
            got.append((ev.val(v, {}), v, st))
        except Error as e:
            got.append((e, v, st))
        except Unknown as e:
            ctx.saw("undecided", f"{entry}: {e}"[:200])
            return None
    if not got:
        # every path raises
        if not isinstance(expected, Exception) and not out:
            ctx.finding(rule, construct or entry, "always raises", "", exc[0][1].path() if exc else [])
        return None
    vals = {repr(g[0]) if isinstance(g[0], (list, Rev)) else str(g[0]) for g in got}
    if len(vals) > 1:
        ctx.saw("undecided", f"{entry}: {len(vals)} answers")
        return None
    g, v, st = got[0]
    ctx.saw("decided", entry)
    if isinstance(g, Exception) or isinstance(expected, Exception):
        if isinstance(g, Exception) != isinstance(expected, Exception):
            ctx.finding(rule, construct or entry, f"{entry}: answer {show(v)[:80]}: "
                        f"{describe(g)} instead of {describe(expected)}", "", st.path())
        return g
    if isinstance(g, dict):
        g = list(g)
    if g != expected:
        ctx.finding(rule, construct or entry, f"{entry} is {describe(g)} instead of "
                    f"{describe(expected)} ({show(v)[:100]})", "", st.path())
    return g


def describe(x):
    if isinstance(x, Exception):
        return f"an error ({x})"
    if isinstance(x, list):
        if not all(isinstance(r, Rev) for r in x):
            return "something else"
        return f"{len(x)} revisions" + (f" ({', '.join('%d' % r.i for r in x[:4])}...)" if x else "")
    return str(x)


def specs(ctx, trust):
    f = ctx.p.method("Repository", "find_revisions")
    n = f.params()[1]
    for spec in SPECS:
        try:
            want = meaning(spec, HISTORY)
        except Error as e:
            want = e
        try:
            I, out, exc = ctx.run(f, Exact(), args={n: C(spec)}, scan=False, lookup=False,
                                  max_steps=6000, opaque={
                                      "Repository.find", "Repository.index_by_token"})
        except Budget:
            ctx.saw("undecided", f"{spec}: too many paths")
            continue
        compare(ctx, "C30.select", f'"{spec}"', out, exc, HISTORY, trust, want)


def numbers(ctx, trust):
    f = ctx.p.method("Repository", "find_by_number")
    n = f.params()[1]
    I, out, exc = ctx.run(f, Paths(), scan=False, lookup=False)
    num = {s for v, st in out for s in list(subterms(v)) + [x for a in st.facts for x in subterms(a)]
           if s[0] == "app" and s[1] == "int"}
    for k in (0, 1, 2, 5, 47, 48, 100, -1, -3):
        want = HISTORY[-k - 1] if 0 <= k < 48 else Error("not found")
        consts = {s: k for s in num}
        ok = [v for v, st in out if Eval(st, HISTORY, trust, consts).path()]
        if not ok:
            if not isinstance(want, Exception):
                ctx.finding("C30.number", "Repository.find_by_number", f"{k} is refused", "",
                            exc[0][1].path() if exc else [])
            continue
        compare(ctx, "C30.number", f"number {k}", out, exc, HISTORY, trust, want, consts,
                "Repository.find_by_number")


def words(ctx, trust):
    f = ctx.p.method("Repository", "find_by_tag")
    n = f.params()[1]
    for w, want in (("last", HISTORY[-1]), ("latest", HISTORY[-1]), ("first", HISTORY[0])):
        I, out, exc = ctx.run(f, Exact(), args={n: C(w)}, scan=False, lookup=False)
        compare(ctx, "C30.word", f'word "{w}"', out, exc, HISTORY, trust, want, None, "Repository.find_by_tag")
    f = ctx.p.method("Repository", "find_by_function")
    n = f.params()[1]
    for w in ("last(clean)", "first(tag:a)", "last(tag:a&local)", "first(not(clean))"):
        want = meaning(w, HISTORY)[0]
        try:
            I, out, exc = ctx.run(f, Exact(), args={n: C(w)}, scan=False, lookup=False,
                                  max_steps=6000, opaque={
                                      "Repository.find", "Repository.index_by_token"})
        except Budget:
            ctx.saw("undecided", f"{w}: too many paths")
            continue
        compare(ctx, "C30.word", f'"{w}"', out, exc, HISTORY, trust, want, None, "Repository.find_by_function")


class Find(Monitor):
    """find(): state: (ways tried, result of the last one)"""
    exact = True
    branches = True

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name

    def init(self):
        return (frozenset(), False)

    def event(self, ev, st, I):
        tried, empty = st.mon
        if ev.kind == "call" and ev.name.startswith("repo:") and ".find_by_" in ev.name:
            w = ev.name.split(".")[-1]
            self.ctx.saw("ways", w)
            tried |= {w}
            a = [x for x in ev.args if any(s[0] == "sym" and s[1] == self.name for s in subterms(x))]
            if len(ev.args) > 1 and not a:
                self.ctx.finding("C30.find", "Repository.find", f"{w} is asked for {show(ev.args[1])}",
                                 ev.loc(), st.path())
        elif ev.kind == "fact":
            a, v = ev.args[0], ev.args[1] == TRUE
            if any(s[0] == "attr" and s[2] == "history" for s in subterms(a)) and not v or \
                    a[0] == "cmp" and C("") in a[2:4] and v or \
                    a[0] != "cmp" and any(s[0] == "sym" and s[1] == self.name for s in subterms(a)) and not v:
                empty = True
        st.mon = (tried, empty)


WAYS = {"find_by_number", "find_by_uuid", "find_by_tag", "find_by_function"}


def find(ctx):
    f = ctx.p.method("Repository", "find")
    m = Find(ctx, f.params()[1])
    ways = {w for w in WAYS if ctx.p.try_method("Repository", w)}
    I, out, exc = ctx.run(f, m, scan=False, lookup=False, opaque={"Repository." + w for w in ways})
    entry = "Repository.find"
    for v, st in out:
        x = v
        while x[0] == "typed":
            x = x[1]
        if not (x[0] == "app" and ".find_by_" in x[1]) and (x[0] in ("c", "idx", "attr") or v == NONE):
            ctx.finding("C30.find", entry, f"the answer is {show(v)}", "", st.path())
    seen = False
    for e, st in exc:
        if not (e[0] == "exc" and e[2]):
            continue
        tried, empty = st.mon
        name = e[1].split(".")[-1]
        if name not in ("KeyError", "LookupError"):
            ctx.finding("C30.find", entry, f"a revision that is not found is {name}", "", st.path())
        if not empty:
            seen = True
            for w in sorted(ways - tried):
                ctx.finding("C30.find", entry, f"gives up without {w}", "", st.path())
    if not seen and not any(v[0] == "mix" for v, _ in out):
        ctx.finding("C30.find", entry, "a revision that is not found is no error", "")
    # what is thrown by the individual ways is caught, or means not found
    for w in sorted(ways):
        I, out2, exc2 = ctx.run("Repository." + w, Exact(), scan=False, lookup=False, opaque={"Repository.find_revisions"})
        for v, st in out2:
            if v == NONE:
                ctx.finding("C30.find", f"Repository.{w}", "answers None", "", st.path())
        for e, st in exc2:
            if e[0] == "exc" and e[2] and e[1].split(".")[-1] not in (
                    "ValueError", "IndexError", "KeyError", "LookupError"):
                ctx.finding("C30.find", f"Repository.{w}", f"a revision that is not found is {e[1]}", "",
                            st.path())


def index(ctx, trust):
    """index_by_token: a date's place, or the place of the revision found"""
    f = ctx.p.method("Repository", "index_by_token")
    n = f.params()[1]
    I, out, exc = ctx.run(f, Exact(), args={n: ("sym", n, ("ext", "str"))}, scan=False, lookup=False, opaque={
        "Repository.find", "Repository.index_by_date"})
    entry = "Repository.index_by_token"
    date = rev = False
    for v, st in out:
        x = v
        while x[0] == "typed":
            x = x[1]
        ctx.saw("places", f"{entry}: {show(v)}")
        if x[0] == "app" and x[1].endswith(".index_by_date"):
            date = True
            if any(a[0] == "cmp" and a[1] == "is" and a[2] == x and val for a, val in st.facts.items()):
                ctx.finding("C30.range", entry, "answers None for what is no date", "", st.path())
            if any(a == x and val for a, val in st.facts.items()) and not any(
                    a[0] == "cmp" and a[1] == "is" and a[2] == x for a, val in st.facts.items()):
                ctx.finding("C30.range", entry, "the date with the place 0 is taken for no date", "",
                            st.path())
        elif x[0] == "app" and x[1] == ".index":
            rev = True
            h, r = x[2][0], x[2][1]
            if not is_history(h) or not any(s[0] == "app" and s[1].endswith("Repository.find")
                                            for s in subterms(r)) and r != ("sym", n, r[2] if len(r) > 2
                                                                            else None):
                ctx.finding("C30.range", entry, f"the place is {show(v)}", "", st.path())
    if out and not date and all(v[0] == "app" for v, _ in out):
        ctx.finding("C30.range", entry, "dates are not looked at", "")
    # dates
    f = ctx.p.method("Repository", "index_by_date")
    I, out, exc = ctx.run(f, Paths(), scan=False, lookup=False)
    entry = "Repository.index_by_date"
    hist = [Rev(i, 10 * i) for i in range(5)]
    dates = {x for v, st in out for t in [v] + list(st.facts) for s in reach(t, st) if s[0] == "cmp"
             for x, y in ((s[2], s[3]), (s[3], s[2])) if y[0] == "attr" and y[2] == "timestamp"}
    for v, st in out:
        ds = {x for a, _ in st.mon for s in subterms(a) if s[0] == "cmp"
              for x, y in ((s[2], s[3]), (s[3], s[2])) if y[0] == "attr" and y[2] == "timestamp"}
        ds |= {x for t in reach(v, st) if t[0] == "cmp"
               for x, y in ((t[2], t[3]), (t[3], t[2])) if y[0] == "attr" and y[2] == "timestamp"}
        # the date is known to have a time zone
        aware = any(x == (a[0] != "cmp") for a, x in st.mon if any(
            s[0] == "attr" and s[2] == "tzinfo" for s in subterms(a)))
        for d in ds:
            ctx.saw("places", f"date: {show(d)}")
            if aware:
                continue
            if any(s[0] == "app" and s[1].endswith("fromisoformat") for s in subterms(d)) and not any(
                    s[0] == "app" and (s[1] in (".replace", ".astimezone", ".localize"))
                    for s in subterms(d)):
                ctx.finding("C30.range", entry, "dates without a time zone cannot be compared", "",
                            st.path())
            for s in subterms(d):
                if s[0] == "app" and s[1] == ".replace":
                    tz = dict(s[3]).get("tzinfo")
                    about = [a for a, _ in st.mon] + list(st.facts) + ([tz] if tz is not None else [])
                    if tz is not None and tz[0] in ("app", "ext") and not any(
                            x[0] == "attr" and x[2] == "tzinfo" or x[0] == "app" and "utcoffset" in x[1]
                            or x[0] in ("ite", "or", "if") for a in about for x in subterms(a)):
                        ctx.finding("C30.range", entry, f"dates with a time zone of their own are taken for {show(tz)}",
                                    "", st.path())
                    if tz is not None and tz[0] in ("attr", "ext", "app", "c") and not any(
                            x[0] == "app" and x[1].endswith(("get_localzone", "tzlocal"))
                            for x in subterms(tz)) and not (tz[0] == "attr" and tz[2] == "tzinfo"):
                        ctx.finding("C30.range", entry, f"dates without a time zone are {show(tz)}", "",
                                    st.path())
    for h in (hist, []):
        for d in (-5, 0, 5, 10, 15, 40, 45):
            consts = {x: d for x in dates}
            o = [(v, st) for v, st in out if v != NONE]
            compare(ctx, "C30.range", f"place of {d} in a history of {len(h)}", o, [], h, trust,
                    ref_date(d, h), consts, entry)


def check(ctx):
    ctx.rule("C30.select", "a specifier selects the revisions it describes, in order")
    ctx.rule("C30.number", "n is the n-th revision counted back from the newest, 0")
    ctx.rule("C30.word", "last, latest, first and functions stand for what they say")
    ctx.rule("C30.find", "what is not found is an error, after everything was tried")
    ctx.rule("C30.range", "times are places between the revisions before and after")
    c = ctx.p.cls("Trust")
    trust = {}
    for name, node in c.attrs.items():
        v = getattr(node, "value", node)
        v = getattr(v, "value", v)
        if isinstance(v, str):
            trust[name] = v
    specs(ctx, trust)
    numbers(ctx, trust)
    words(ctx, trust)
    find(ctx)
    index(ctx, trust)
    ctx.need("decided", 20)
