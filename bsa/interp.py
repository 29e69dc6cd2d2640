"""A path-sensitive abstract interpreter for the Python subset backy uses.

Functions of the repository are inlined (context sensitive, bounded depth);
everything outside is an opaque call that yields a term and an event.  A
property is decided by a monitor: a finite automaton over the events, whose
state is part of the abstract state.  States are joined when they agree on
everything but branch facts (the facts are intersected)."""
import ast
import time

from . import models as M
from .loader import AnalysisError, dotted
from .terms import (C, FALSE, NONE, TRUE, cval, dirname, is_c, is_str, join,
                    mentions, show, strcat, with_suffix)


class State:
    __slots__ = ("env", "heap", "facts", "mon", "pend", "trace")

    def __init__(self, env=None, heap=None, facts=None, mon=None, pend=(), trace=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.mon = mon
        self.pend = pend
        self.trace = trace

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts),
                     self.mon, self.pend, self.trace)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()),
                self.mon, self.pend)

    def note(self, fr, node, text):
        self.trace = (self.trace, f"{fr.module.rel}:{getattr(node, 'lineno', 0)} {text}")

    def path(self, n=12):
        out, t = [], self.trace
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        return list(reversed(out))


class Event:
    __slots__ = ("kind", "name", "args", "kw", "node", "fr", "result", "extra")

    def __init__(self, kind, name, args=(), kw=None, node=None, fr=None,
                 result=None, extra=None):
        self.kind, self.name, self.args = kind, name, tuple(args)
        self.kw = kw or {}
        self.node, self.fr, self.result, self.extra = node, fr, result, extra

    def loc(self):
        return f"{self.fr.module.rel}:{getattr(self.node, 'lineno', 0)}"

    def where(self):
        return self.fr.func.qual if self.fr and self.fr.func else "<module>"

    def __repr__(self):
        return f"<{self.kind} {self.name} {[show(a) for a in self.args]}>"


class Fr:
    __slots__ = ("func", "fid", "closure", "module", "caller", "try_depth",
                 "on_yield", "cur_exc", "depth", "self_cls", "active")

    def __init__(self, func, fid, closure, module, caller):
        self.func, self.fid, self.closure = func, fid, closure
        self.module, self.caller = module, caller
        self.try_depth = 0
        self.on_yield = None
        self.cur_exc = None
        self.depth = caller.depth + 1 if caller else 0


class Flow:
    __slots__ = ("brk", "cont", "ret")

    def __init__(self):
        self.brk, self.cont, self.ret = [], [], []


class Monitor:
    branches = False    # report the outcome of conditions as "fact" events
    reads = ()      # attributes whose reads are reported as events
    widens = False  # on_widen(mon, {value: its name in later iterations}) -> mon
    proc_status = None  # possible exit statuses of external programs
    loop_soft = None    # states a loop may have before they are merged
    keep_ints = ()      # numbers loops do not forget
    loops = False   # report iterations ("iter") and ends of loops ("loopend")
    vague = False   # set when a loop was not unrolled
    faults = True   # any operation outside the program may fail
    root_path = None    # (with exact) paths below it are constants
    exact = False   # lists whose content is known are sliced, searched and filtered
    ext = {}        # meaning of library functions (".x": methods of constants,
    #                 ("kind", "x"): methods of modelled objects)
    const = {}      # numbers that are analysed as smaller ones

    def init(self):
        return None

    def event(self, ev, st, I):
        return None


_NEST = {}


def nest(t):
    """How deeply widened values are nested in a term."""
    if not isinstance(t, tuple):
        return 0
    r = _NEST.get(t)
    if r is None:
        r = max((nest(x) for x in t), default=0) + (1 if t and t[0] == "loop" else 0)
        _NEST[t] = r
    return r


def dedupe(states):
    if len(states) < 2:
        return states
    seen = {}
    for s in states:
        k = s.key()
        o = seen.get(k)
        if o is None:
            seen[k] = s
        else:
            if o.facts != s.facts:
                n = o.copy()
                n.facts = {a: v for a, v in o.facts.items() if s.facts.get(a, None) == v}
                seen[k] = n
    return list(seen.values())


def dedupe_pairs(pairs):
    if len(pairs) < 2:
        return pairs
    seen = {}
    for v, s in pairs:
        k = (v, s.key())
        o = seen.get(k)
        if o is None:
            seen[k] = (v, s)
        elif o[1].facts != s.facts:
            n = o[1].copy()
            n.facts = {a: x for a, x in n.facts.items() if s.facts.get(a, None) == x}
            seen[k] = (v, n)
    return list(seen.values())


def _split_may(its):
    return (tuple(i for i in its if not (isinstance(i, tuple) and i and i[0] == "may")),
            tuple(i for i in its if isinstance(i, tuple) and i and i[0] == "may"))


def may_key(s):
    return (frozenset(s.env.items()),
            frozenset((k, _split_may(v)[0] if k[1] in ("#c", "#k") and isinstance(v, tuple) else v)
                      for k, v in s.heap.items()),
            s.mon, s.pend)


def may_join(a, b):
    """Join two states that differ only in what containers may hold."""
    n = a.copy()
    for k, v in b.heap.items():
        o = n.heap.get(k)
        if k[1] in ("#c", "#k") and o != v and isinstance(v, tuple) and o is not None:
            n.heap[k] = o + tuple(x for x in v if x not in o)
    n.facts = {x: v for x, v in a.facts.items() if b.facts.get(x, None) == v}
    return n


class Budget(AnalysisError):
    pass


# seconds after which the cases of concrete models that are left are not decided
LATE = 300


# what these selections stand for (that they do is C30's business)
SPECS = {C(k): ast.parse(f"[r for r in _.history{v}]", mode="eval").body for k, v in (
    ("all", ""), ("local", " if not r.server"), ("remote", " if r.server"),
    ("clean", " if 'duration' in r.stats"))}
for _e in SPECS.values():
    _e.generators[0].iter.value.id = "$repo"


class Counted:
    """the target of a loop over enumerate(...)"""

    def __init__(self, target, itv):
        self.target, self.number = target, ("idx", ("elem", itv, 0), C(0))


class Interp:
    MAX_DEPTH = 28
    LOOP_SOFT = 6
    SOFT = 16

    def merge_states(self, sts, fr, node):
        """Join states that agree on the monitor (ESP): what differs becomes
        unknown."""
        first = sts[0]
        n = first.copy()
        sid = self.site(fr, node, "merge")
        keys = set()
        for s in sts:
            keys.update(s.env)
        for k in keys:
            vs = []
            for s in sts:
                v = s.env.get(k)
                if v is not None and v not in vs:
                    vs.append(v)
            n.env[k] = vs[0] if len(vs) == 1 else self.mix(sid, k, vs, sts)
        keys = set()
        for s in sts:
            keys.update(s.heap)
        for k in keys:
            if nest(k) > 2:
                n.heap.pop(k, None)
                continue
            vs, miss = [], False
            for s in sts:
                v = s.heap.get(k)
                if v is None:
                    miss = True
                elif v not in vs:
                    vs.append(v)
            if len(vs) == 1 and not (miss and k[0][0] != "obj"):
                n.heap[k] = vs[0]
            elif k[1] in ("#c", "#k"):
                base = tuple(i for i in vs[0] if all(i in v for v in vs)) \
                    if not (miss and k[0][0] != "obj") else ()
                rest = []
                for v in vs:
                    for i in v:
                        if i in base:
                            continue
                        m = i if i[0] == "may" else ("may", i)
                        if m not in rest and m not in base:
                            rest.append(m)
                n.heap[k] = base + tuple(rest[:40])
            else:
                n.heap[k] = self.mix(sid, ("h",) + k, vs, sts)
        f = first.facts
        for s in sts[1:]:
            f = {a: v for a, v in f.items() if s.facts.get(a, None) == v}
        n.facts = dict(f)
        return n

    def mix(self, sid, k, vs, sts):
        ts = {self.typeof(v, sts[0]) for v in vs if v != NONE}
        return ("loop", sid, ("mix",) + tuple(k), ts.pop() if len(ts) == 1 else None)

    def bound_states(self, sts, fr, node):
        if len(sts) <= self.SOFT:
            return sts
        groups = {}
        for s in sts:
            groups.setdefault((s.mon, s.pend), []).append(s)
        out = []
        for g in groups.values():
            # keep the shapes of the current frame apart where that is cheap
            sub = {}
            for s in g:
                sub.setdefault(frozenset((k, v) for k, v in s.env.items()
                                         if k[0] == fr.fid), []).append(s)
            if len(sub) * len(groups) <= self.SOFT:
                out += [self.merge_states(x, fr, node) if len(x) > 1 else x[0]
                        for x in sub.values()]
            else:
                out.append(self.merge_states(g, fr, node))
        return out

    def __init__(self, prog, monitor=None, inline=None, cancel=False,
                 max_steps=3_000_000, opaque=(), subst=None):
        self.p = prog
        self.mon = monitor or Monitor()
        self.on_throw = getattr(self.mon, "on_throw", None)
        self.inline_pred = inline
        self.opaque = set(opaque)
        self.sorts = {}
        self.cancel = cancel
        self.exc = []
        self.fids = {}
        self.finfo = {}
        self.ofid = {}
        self.fparent = {}
        self.oids = {}
        self.stack = []
        self.steps = 0
        self.max_steps = max_steps
        self.funcs_seen = set()
        self.calls_seen = 0
        self.globals_cache = {}
        self.muted = 0
        self.active = []
        self.max_states = 0
        self.subst = subst or {}

    # ----------------------------------------------------------- utilities
    def site(self, fr, node, extra=None):
        k = (fr.fid if fr else 0, id(node), extra)
        r = self.oids.get(k)
        if r is None:
            r = self.oids[k] = len(self.oids) + 1
            self.ofid[r] = k[0]
        return r

    def new_fid(self, caller, node, func, closure, n=0):
        k = (caller.fid if caller else 0, id(node), func.uid, closure, n)
        r = self.fids.get(k)
        if r is None:
            r = self.fids[k] = len(self.fids) + 1
            self.finfo[r] = (func, closure)
            self.fparent[r] = caller.fid if caller else 0
        return r

    def emit(self, ev, st):
        if self.muted:
            return
        self.calls_seen += ev.kind == "call"
        self.last_event = ev
        self.mon.event(ev, st, self)

    def throw(self, exc, st):
        """A new exception, raised by the operation just evaluated."""
        if not exc[2] and not self.mon.faults:
            return
        if self.on_throw is not None and not self.muted:
            st = st.copy()
            self.on_throw(exc, st, self)
        self.exc.append((exc, st))

    def obj(self, st, fr, node, kind, extra=None):
        o = ("obj", self.site(fr, node, ("o", kind, extra)), kind)
        if self.mon.exact:
            used = {k[0] for k in st.heap}
            n = 0
            while o in used and n < 250:
                n += 1
                o = ("obj", self.site(fr, node, ("o", kind, extra, n)), kind)
        # a fresh object: forget what an earlier pass left at this site
        for k in [k for k in st.heap if k[0] == o]:
            del st.heap[k]
        return o

    def app(self, fr, node, name, args, kw=(), pure=False, extra=None):
        kwt = tuple(sorted(kw.items())) if isinstance(kw, dict) else tuple(kw)
        return ("app", name, tuple(args), kwt,
                0 if pure else self.site(fr, node, ("a", extra)))

    def items(self, st, o):
        return st.heap.get((o, "#c"))

    def run(self, func, args=None, kw=None, st=None, self_val=None):
        """Analyse one entry point with symbolic parameters."""
        st = st or State(mon=self.mon.init())
        fr = Fr(None, 0, None, func.module, None)
        self.entry, self.entry_frame = func, fr
        self.exc = []
        node = func.node
        vals = self.func_value(func, st, fr)
        out, excs = [], []
        for fv, s in vals:
            pos, kws = [], dict(kw or {})
            params = func.params()
            names = params[:]
            a = func.node.args
            if func.cls is not None and self._kind(func) != "static":
                names = names[1:]
                if self_val is None:
                    if self._kind(func) == "class":
                        self_val = ("class", func.cls.qual)
                    else:
                        self_val = ("sym", "self", ("cls", func.cls.qual))
                fv = self._bind(fv, self_val)
            for n in names:
                if args and n in args:
                    pos.append(args[n])
                else:
                    pos.append(("sym", n, self.p.param_type(func, n)))
            for x in a.kwonlyargs:
                if args and x.arg in args:
                    kws[x.arg] = args[x.arg]
                elif x.arg not in kws:
                    kws[x.arg] = ("sym", x.arg, self.p.param_type(func, x.arg))
            if a.vararg:
                pos.append(("star", (args or {}).get(a.vararg.arg) or ("sym", "*" + a.vararg.arg, None)))
            if kws.get("**", 1) is None:        # just these
                del kws["**"]
            elif a.kwarg:
                kws["**"] = ("sym", "**" + a.kwarg.arg, None)
            res = self.call(fv, pos, kws, s, node, fr)
            fin = []
            for v, s2 in res:
                if v[0] in ("coro",):
                    fin += self.await_value(v, s2, node, fr)
                elif v[0] == "gen":
                    fin += self.drain(v, s2, fr, lambda val, s3: [s3])
                elif v[0] == "cm":
                    # entered by an unknown block that may succeed or raise
                    def body(ss, oo):
                        for x in ss:
                            x = x.copy()
                            self.emit(Event("call", "with.body", (v,), {}, node, fr), x)
                            self.throw(("exc", "Exception", False), x)
                        return ss
                    fin += [(NONE, x) for x in self.with_one(
                        v, None, s2, Flow(), fr, False, node, body)]
                else:
                    fin.append((v, s2))
            out += fin
        excs = self.exc
        self.exc = []
        return out, excs

    def run_raw(self, func):
        """Analyse the body of any function, undecorated, on its own."""
        st = State(mon=self.mon.init())
        fr = Fr(None, 0, None, func.module, None)
        self.exc = []
        env = {}
        params = func.all_params()
        for i, n in enumerate(params):
            if i == 0 and func.cls is not None and func.parent is None:
                kind = self._kind(func)
                if kind == "inst":
                    env[n] = ("sym", n, ("cls", func.cls.qual))
                    continue
                if kind == "class":
                    env[n] = ("class", func.cls.qual)
                    continue
            env[n] = ("sym", n, self.p.param_type(func, n))
        fid = self.new_fid(fr, func.node, func, None)
        for n, v in env.items():
            st.env[(fid, n)] = v
        out = self.run_body(func, fid, None, st, fr,
                            on_yield=(lambda v, s: [s]) if func.is_gen else None)
        exc, self.exc = self.exc, []
        return out, exc

    @staticmethod
    def _kind(func):
        for d in func.decos:
            n = dotted(d) or ""
            if n == "staticmethod":
                return "static"
            if n == "classmethod":
                return "class"
        if func.name == "__new__":
            return "static"
        return "inst"

    @staticmethod
    def _bind(fv, self_val):
        if fv[0] == "func" and fv[3] is None:
            return ("func", fv[1], fv[2], self_val)
        return fv

    # ------------------------------------------------------- type inference
    def typeof(self, t, st=None, depth=0):
        if depth > 12:
            return None
        k = t[0]
        if k == "obj":
            if t[2] in self.p.class_by_qual:
                return ("cls", t[2])
            return ("ext", t[2])
        if k == "sym":
            return t[2]
        if k == "c":
            return ("ext", t[1])
        if k in ("join", "tmp"):
            return ("ext", "pathlib.Path")
        if k == "str":
            return ("ext", "str")
        if k == "enum":
            return ("cls", t[1])
        if k == "loop":
            return t[3]
        if k == "typed":
            return t[2]
        if k == "attr":
            bt = self.typeof(t[1], st, depth + 1)
            if bt and bt[0] == "cls":
                c = self.p.class_by_qual.get(bt[1])
                if c:
                    r = self.p.attr_type(c, t[2])
                    if r:
                        return r
                    m = self.p.find_method(c, t[2])
                    if m:
                        return self.p.ret_type(m)
            if bt and bt[0] == "ext" and bt[1] == "pathlib.Path" and t[2] == "parent":
                return bt
            return None
        if k == "elem":
            return self.elemtype(self.typeof(t[1], st, depth + 1))
        if k == "idx":
            bt = self.typeof(t[1], st, depth + 1)
            if bt and bt[0] == "list":
                return bt[1]
            if bt and bt[0] == "dict":
                return bt[2]
            if bt and bt[0] == "tuple":
                i = cval(t[2])
                if isinstance(i, int) and -len(bt) < i < len(bt) - 1:
                    return bt[1 + i] if i >= 0 else bt[i]
            return None
        if k == "slice":
            return self.typeof(t[1], st, depth + 1)
        if k == "conv":
            bt = self.typeof(t[2], st, depth + 1)
            et = self.elemtype(bt)
            if t[1] == "enumerate":
                return ("list", ("tuple", ("ext", "int"), et))
            return ("list", et)
        if k == "comp":
            ts = {self.typeof(a[1], st, depth + 1) for a in t[2]}
            return ("list", ts.pop() if len(ts) == 1 else None)
        if k == "bin":
            a = self.typeof(t[2], st, depth + 1)
            if a and a[0] in ("list",):
                return a
            return a if t[1] in ("-", "+", "|", "&") and a and a[0] != "cls" else None
        if k == "app":
            n = t[1]
            if n.startswith("repo:"):
                f = self._fq(n[5:])
                if f:
                    r = self.p.ret_type(f)
                    if r is None and n[5:].endswith(".find_by_uuid"):
                        return None
                    return r
            if n in M.EXT_RET:
                return M.EXT_RET[n]
            if n in (".values", ".keys", ".items"):
                bt = self.typeof(t[2][0], st, depth + 1)
                if bt and bt[0] == "dict":
                    return ("list", bt[2] if n == ".values" else bt[1]
                            if n == ".keys" else ("tuple", bt[1], bt[2]))
                return None
            if n in (".get", ".pop", ".setdefault") and t[2]:
                bt = self.typeof(t[2][0], st, depth + 1)
                if bt and bt[0] == "dict":
                    return bt[2]
                return None
            if n == "zip":
                return ("list", ("tuple",) + tuple(
                    self.elemtype(self.typeof(a, st, depth + 1)) for a in t[2]))
            if n in ("min", "max") and len(t[2]) == 1:
                return self.elemtype(self.typeof(t[2][0], st, depth + 1))
            if n == "fs.glob":
                return ("list", ("ext", "pathlib.Path"))
            if n == "dict.fromkeys" and t[2]:
                return ("dict", self.elemtype(self.typeof(t[2][0], st, depth + 1)), None)
            if n in ("typing.cast",) and len(t[2]) == 2:
                if t[2][0][0] == "class":
                    return ("cls", t[2][0][1])
                return None
            last = n.split(".")[-1]
            if "." in n and not n.startswith(".") and last[:1].isupper():
                return ("ext", n)
            if n in ("str", "len", "int", "float", "set", "list", "dict"):
                return ("ext", n)
            return None
        if k == "tuple":
            return ("tuple",) + tuple(self.typeof(a, st, depth + 1) for a in t[1])
        if k == "phi":
            ts = {self.typeof(a, st, depth + 1) for a in t[1] if a != NONE}
            return ts.pop() if len(ts) == 1 else None
        return None

    def _fq(self, qual):
        for f in self.p.funcs:
            if f.qual == qual:
                return f
        return None

    @staticmethod
    def elemtype(t):
        if t is None:
            return None
        if t[0] == "list":
            return t[1]
        if t[0] == "dict":
            return t[1]
        if t[0] == "tuple":
            s = set(t[1:])
            return s.pop() if len(s) == 1 else None
        return None

    def cls_of(self, t, st=None):
        ty = self.typeof(t, st)
        if ty and ty[0] == "cls":
            return self.p.class_by_qual.get(ty[1])
        return None

    def is_path(self, t, st=None):
        ty = self.typeof(t, st)
        if ty and ty[0] == "ext" and ty[1] in ("pathlib.Path", "pathlib.PurePath"):
            return True
        return t[0] in ("join", "tmp")

    # ------------------------------------------------------------- globals
    def global_value(self, m, name, st, fr):
        r = self.p.lookup_global(m, name)
        if r is None:
            return None
        if r[0] == "func":
            vals = self.func_value(r[1], st, fr)
            if len(vals) != 1:
                return ("ext", r[1].qual)
            # the variables its decorators captured
            for k, v in vals[0][1].env.items():
                st.env.setdefault(k, v)
            return vals[0][0]
        if r[0] == "class":
            return ("class", r[1].qual)
        if r[0] == "mod":
            return ("mod", r[1])
        if r[0] == "ext":
            return ("ext", r[1])
        if r[0] == "ann":
            return ("sym", r[1].name + "." + name, self.p.parse_type(r[1], r[2]))
        k = (r[1].name, name, id(r[2]))
        if k not in self.globals_cache:
            self.globals_cache[k] = ("ext", r[1].name + "." + name)
            self.globals_cache[k] = self._eval_static(r[1], r[2], r[1].name + "." + name)
        return self.globals_cache[k]

    def _eval_static(self, m, node, name):
        """Value of a module or class level expression."""
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                g = self.p.lookup_global(m, d.split(".")[0]) if d else None
                if g and g[0] == "func":
                    return ("sym", name, None)
                if d in ("object",):
                    return ("unique", name)
                if d and (d.split(".")[-1] in ("get_logger", "TypeVar", "get", "entry_points")):
                    return ("ext", name)
        saved, self.exc = self.exc, []
        self.muted += 1
        try:
            fr = Fr(None, -hash(name) % 10**9, None, m, None)
            vs = self.eval(node, State(), fr)
        finally:
            self.muted -= 1
            self.exc = saved
        if len(vs) == 1 and vs[0][0][0] in ("c", "tuple", "str", "ext", "class",
                                             "mod", "enum", "func", "bin", "join"):
            return vs[0][0]
        if len(vs) == 1 and vs[0][0][0] == "obj" and vs[0][0][2] in ("list", "set", "tuple"):
            its = vs[0][1].heap.get((vs[0][0], "#c")) or ()
            if all(i[0] == "v" for i in its):
                return ("tuple", tuple(i[1] for i in its))
        return ("ext", name)

    KNOWN_DECOS = {"property", "classmethod", "staticmethod", "abstractmethod",
                   "functools.cached_property", "cached_property",
                   "contextlib.contextmanager", "contextmanager",
                   "contextlib.asynccontextmanager", "asynccontextmanager",
                   "typing.overload", "overload", "abc.abstractmethod",
                   "dataclass", "functools.lru_cache", "functools.cache",
                   "aiohttp.web_middlewares.middleware", "middleware",
                   "aiohttp.web.middleware", "functools.wraps"}

    def _deco_known(self, d, m):
        n = dotted(d.func if isinstance(d, ast.Call) else d)
        if not n:
            return False
        if n in self.KNOWN_DECOS:
            return True
        r = self.p.lookup_global(m, n.split(".")[0])
        if r is None:
            return "." in n  # e.g. @name.setter
        if r[0] == "ext":
            return True
        return False

    def has_deco(self, f, *names):
        for d in f.decos:
            n = dotted(d.func if isinstance(d, ast.Call) else d) or ""
            if n.split(".")[-1] in names:
                return True
        return False

    def func_value(self, f, st, fr, closure=None, lexcls=None):
        """The (decorated) function value of a def.  -> [(value, state)]"""
        base = ("func", f.uid, closure, None)
        todo = [d for d in f.decos if not self._deco_known(d, f.module)]
        if not todo or self.is_opaque(f):
            return [(base, st)]
        res = [(base, st)]
        mfr = Fr(None, -1 - f.uid, None, f.module, fr)
        mfr.depth = fr.depth if fr else 0
        for d in reversed(todo):
            nxt = []
            for v, s in res:
                dvals = None
                # class-scope name lookup for decorators inside a class body
                if f.cls is not None:
                    dn = d.func if isinstance(d, ast.Call) else d
                    if isinstance(dn, ast.Name) and dn.id in f.cls.methods:
                        m = f.cls.methods[dn.id]
                        dv = ("func", m.uid, None, None)
                        if isinstance(d, ast.Call):
                            dvals = []
                            for (av, kv), s1 in self.eval_args(d, s, mfr):
                                dvals += self.call(dv, av, kv, s1, d, mfr)
                        else:
                            dvals = [(dv, s)]
                if dvals is None:
                    dvals = self.eval(d, s, mfr)
                for dv, s1 in dvals:
                    if dv[0] == "func":
                        nxt += self.call(dv, [v], {}, s1, d, mfr)
                    else:
                        nxt.append((v, s1))
            res = nxt
        return res

    # ---------------------------------------------------------- truthiness
    def norm(self, v):
        """-> (atom, polarity)"""
        pol = True
        while True:
            if v[0] == "not":
                v, pol = v[1], not pol
                continue
            if v[0] == "app" and v[1] == "bool" and len(v[2]) == 1:
                v = v[2][0]
                continue
            break
        if v[0] == "cmp":
            op, a, b = v[1], v[2], v[3]
            if op == "!=":
                op, pol = "==", not pol
            elif op == "not in":
                op, pol = "in", not pol
            elif op == "is not":
                op, pol = "is", not pol
            elif op == ">":
                op, a, b = "<", b, a
            elif op == ">=":
                op, pol = "<", not pol
            elif op == "<=":
                op, a, b, pol = "<", b, a, not pol
            if op == "is" and b[0] != "c" and b[0] != "unique":
                op = "=="
            if op == "is" and b[0] == "c" and b[2] is not None:
                op = "=="
            if op == "==" and repr(a) > repr(b):
                a, b = b, a
            # len(x) == 0, len(x) > 0  ->  truth of x
            for x, y, sw in ((a, b, False), (b, a, True)):
                if x[0] == "app" and x[1] == "len" and y == C(0):
                    if op == "==":
                        return x[2][0], not pol
                    if op == "<" and sw:      # 0 < len(x)
                        return x[2][0], pol
            if op == "<" and a[0] == "app" and a[1] == "len" and b == C(1):
                return a[2][0], not pol
            v = ("cmp", op, a, b)
        elif v[0] == "app" and v[1] == "len" and len(v[2]) == 1:
            v = v[2][0]
        elif v[0] == "conv" and v[1] in ("list", "set", "tuple", "sorted", "reversed"):
            v = v[2]
        return v, pol

    def truth(self, v, st):
        v, pol = self.norm(v)
        r = self._truth(v, st)
        return None if r is None else (r == pol)

    def _truth(self, v, st):
        k = v[0]
        if k == "c":
            return bool(v[2])
        if k in ("func", "class", "mod", "ext", "exc", "gen", "coro", "cm", "bound",
                 "enum", "unique", "join", "tmp", "super", "excclass"):
            return True
        if k == "tuple":
            return bool(v[1])
        if k == "str":
            if any(is_c(x) and x[2] for x in v[1]):
                return True
        if v in st.facts:
            return st.facts[v]
        if k == "obj":
            if v[2] in ("list", "set", "tuple", "dict", "defaultdict"):
                c = st.heap.get((v, "#c"))
                if c is not None:
                    if any(i[0] == "v" for i in c):
                        return True
                    if not c:
                        return False
                return None
            if v[2] in self.p.class_by_qual:
                c = self.p.class_by_qual[v[2]]
                if not (self.p.find_method(c, "__bool__") or self.p.find_method(c, "__len__")):
                    return True
                return None
            return True
        if k == "cmp":
            return self._cmp(v[1], v[2], v[3], st)
        if k == "bin" and v[1] == "|":
            a, b = self.truth(v[2], st), self.truth(v[3], st)
            return True if a or b else False if a is False and b is False else None
        if k in ("sym", "attr", "elem", "idx"):
            # None-ness known to be true means falsy
            if st.facts.get(("cmp", "is", v, NONE)):
                return False
        return None

    def _static_val(self, t):
        return t[0] in ("c", "enum", "class", "unique", "func") or (
            t[0] == "ext" and t[1].startswith("signal.SIG"))

    SEEK = {("ext", f"{m}.{n}"): C(v) for m in ("io", "os")
            for n, v in (("SEEK_SET", 0), ("SEEK_CUR", 1), ("SEEK_END", 2))}

    def exact_value(self, t, st, depth=0):
        """The value of a container of constants in the concrete model, or None"""
        if is_c(t):
            return ("c", t[2])
        if depth > 4:
            return None
        if t[0] == "tuple":
            xs = [self.exact_value(x, st, depth + 1) for x in t[1]]
            return None if None in xs else ("t", tuple(xs))
        if t[0] != "obj" or t[2] not in ("list", "dict", "set"):
            return None
        its = st.heap.get((t, "#c"))
        if its is None or not all(i[0] == "v" for i in its):
            return None
        if t[2] == "dict":
            kk = {self.exact_value(k, st, depth + 1): self.exact_value(v, st, depth + 1)
                  for k, v in st.heap.get((t, "#k"), ())}
            if None in kk or None in kk.values() or len(kk) != len(its):
                return None
            return ("d", frozenset(kk.items()))
        xs = [self.exact_value(i[1], st, depth + 1) for i in its]
        if None in xs:
            return None
        return ("s", frozenset(xs)) if t[2] == "set" else ("l", tuple(xs))

    def _cmp(self, op, a, b, st):
        f = st.facts
        if self.mon.exact:
            a, b = self.SEEK.get(a, a), self.SEEK.get(b, b)
        if op in ("==", "is"):
            if a == b and a[0] != "app":
                return True
            if a == b and a[0] == "app":
                return True
            if is_c(a) and is_c(b):
                try:
                    return bool(a[2] == b[2]) if op == "==" else (a[2] is b[2] or
                            (a[2] == b[2] and a[1] == b[1]))
                except Exception:
                    return None
            if self._static_val(a) and self._static_val(b):
                return False if a != b else True
            if self.mon.exact and op == "==" and a[0] == b[0] == "obj":
                x, y = self.exact_value(a, st), self.exact_value(b, st)
                if x is not None and y is not None:
                    return x == y
            for x, y in ((a, b), (b, a)):
                if y == NONE:
                    if x[0] in ("obj", "func", "class", "ext", "mod", "tuple", "str",
                                "join", "exc", "enum", "gen", "coro", "tmp", "unique",
                                "comp", "conv", "cmp", "not", "bin", "excclass", "bound"):
                        return False
                    if x in f and f[x]:
                        return False
                if y[0] == "enum":
                    ty = self.typeof(x, st)
                    if ty and ty[0] == "cls" and ty[1] != y[1]:
                        c = self.p.class_by_qual.get(ty[1])
                        if c and not self.p.find_method(c, "__eq__") and not c.is_enum:
                            return False
                if self._static_val(y):
                    # known equal to something else?
                    for (at, val) in f.items():
                        if val and at[0] == "cmp" and at[1] in ("==", "is"):
                            other = (at[3] if at[2] == x else at[2] if at[3] == x else None)
                            if other is not None and self._static_val(other) and other != y:
                                return False
                    if y[0] == "c" and y[2] in ("", 0, False, None) and f.get(x) is True:
                        return False
                if self.mon.exact and is_str(y) and x[0] in ("app", "idx", "elem"):
                    ty = self.typeof(x, st)
                    if ty and ty[0] in ("list", "dict", "tuple", "cls"):
                        return False
                if self.mon.exact and is_str(y) and (x[0] in ("comp", "slice", "conv") or
                                                     x[0] == "obj" and x[2] in ("list", "dict")):
                    return False
            # const string vs structured string
            for x, y in ((a, b), (b, a)):
                if x[0] == "str" and is_str(y):
                    h, t = x[1][0], x[1][-1]
                    if is_str(h) and not y[2].startswith(h[2]):
                        return False
                    if is_str(t) and not y[2].endswith(t[2]):
                        return False
        elif op == "<":
            if is_c(a) and is_c(b):
                try:
                    return bool(a[2] < b[2])
                except Exception:
                    return None
            if a == b:
                return False
            if f.get(("cmp", "<", b, a)):
                return False
        elif op == "in":
            if is_c(a) and is_c(b):
                try:
                    return a[2] in b[2]
                except Exception:
                    return None
            its = None
            if b[0] == "tuple":
                its = [("v", x) for x in b[1]]
            elif b[0] == "obj" and b[2] in ("list", "set", "tuple", "dict", "defaultdict"):
                its = st.heap.get((b, "#c"))
            elif b[0] == "kwdict":
                its = [("v", C(k)) for k, _ in b[1]]
            elif b[0] == "sigparams":
                its = [("v", C(x)) for x in self.p.funcs[b[1]].all_params()]
            if its is not None and all(i[0] == "v" for i in its):
                if not its:
                    return False
                vals = [self._cmp("==", a, i[1], st) for i in its]
                if any(x is True for x in vals):
                    return True
                if all(x is False for x in vals):
                    return False
        return None

    def assume(self, v, st, val):
        """Record that v is truthy/falsy. -> state or None if contradictory."""
        t = self.truth(v, st)
        if t is not None:
            return st if t == val else None
        a, pol = self.norm(v)
        s = st.copy()
        s.facts[a] = (val == pol)
        if a[0] == "cmp" and a[1] == "is" and a[3] == NONE and (val == pol):
            s.facts[a[2]] = False
        if a[0] == "cmp" and a[1] in ("==", "is") and val != pol and "enum" in (a[2][0], a[3][0]):
            x, e = (a[2], a[3]) if a[3][0] == "enum" else (a[3], a[2])
            c = self.p.class_by_qual.get(e[1])
            ty = self.typeof(x, st)
            if c is not None and ty == ("cls", c.qual) and c.attrs:
                # no member is left
                if all(any(s.facts.get(("cmp", o) + y) is False for o in ("==", "is")
                           for y in ((x, ("enum", c.qual, n)), (("enum", c.qual, n), x)))
                       for n in c.attrs):
                    return None
        return s

    def branch(self, v, st, fr, node, text=None):
        """-> (true_states, false_states)"""
        t = self.truth(v, st)
        if t is True:
            return [st], []
        if t is False:
            return [], [st]
        a = self.assume(v, st, True)
        b = self.assume(v, st, False)
        if a is not None and a is not st:
            a.note(fr, node, f"{text or show(v)} is true")
        if b is not None and b is not st:
            b.note(fr, node, f"{text or show(v)} is false")
        if self.mon.branches:
            at, pol = self.norm(v)
            for x, val in ((a, True), (b, False)):
                if x is not None and x is not st:
                    self.emit(Event("fact", text or "", (at, C(val == pol)), None, node, fr), x)
        return ([a] if a else []), ([b] if b else [])

    # -------------------------------------------------------- conditionals
    def cond(self, e, st, fr):
        """Evaluate e as a condition -> (true states, false states)."""
        if isinstance(e, ast.BoolOp):
            ts, fs = [], []
            cur = [st]
            isand = isinstance(e.op, ast.And)
            for i, v in enumerate(e.values):
                nxt = []
                for s in cur:
                    t, f = self.cond(v, s, fr)
                    if isand:
                        fs += f
                        nxt += t
                    else:
                        ts += t
                        nxt += f
                cur = dedupe(nxt)
            if isand:
                ts = cur
            else:
                fs = cur
            return dedupe(ts), dedupe(fs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st, fr)
            return f, t
        if (isinstance(e, ast.Call) and isinstance(e.func, ast.Name)
                and e.func.id in ("any", "all") and len(e.args) == 1
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp))):
            return self.anyall(e.func.id, e.args[0], st, fr)
        if (isinstance(e, ast.Call) and isinstance(e.func, ast.Name)
                and e.func.id == "bool" and len(e.args) == 1):
            return self.cond(e.args[0], st, fr)
        ts, fs = [], []
        for v, s in self.eval(e, st, fr):
            for v2, s2 in self.truth_call(v, s, fr, e):
                t, f = self.branch(v2, s2, fr, e, ast.unparse(e)[:70])
                ts += t
                fs += f
        return dedupe(ts), dedupe(fs)

    def truth_call(self, v, st, fr, node):
        return [(v, st)]

    def anyall(self, which, g, st, fr):
        """any(...)/all(...) over a generator expression, as a search loop."""
        ts, fs = [], []
        want = which == "any"
        hits = []

        def body(s):
            t, f = self.cond(g.elt, s, fr)
            if want:
                hits.extend(t)
                return f
            hits.extend(f)
            return t

        rest = self.comp_loop(g.generators, 0, [st], fr, g, body)
        if want:
            return dedupe(hits), dedupe(rest)
        return dedupe(rest), dedupe(hits)

    def comp_loop(self, gens, i, sts, fr, node, body):
        """Run body for the generic element of nested comprehension clauses."""
        if i == len(gens):
            out = []
            for s in sts:
                out += body(s)
            return out
        gen = gens[i]

        def inner(s):
            cur = [s]
            skip = []
            for c in gen.ifs:
                nxt = []
                for s1 in cur:
                    t, f = self.cond(c, s1, fr)
                    nxt += t
                    skip += f
                cur = nxt
            return skip + self.comp_loop(gens, i + 1, cur, fr, node, body)

        out = []
        for s in sts:
            for itv, s1 in self.eval(gen.iter, s, fr):
                out += self.iterate(itv, [s1], fr, gen.iter, gen.target,
                                    lambda s2: (inner(s2), []),
                                    is_async=bool(gen.is_async))[0]
        return dedupe(out)

    # --------------------------------------------------------------- loops
    def iterate(self, itv, sts, fr, node, target, body, is_async=False):
        """for target in itv: body.  body(state) -> (next, breaks).
        -> (exhausted states, break states)"""
        if itv[0] == "conv" and itv[1] == "enumerate" and not (
                self.mon.exact and self.exact_items(itv, sts[0]) is not None):
            # the loop over what is counted, with an unknown number
            return self.iterate(itv[2], sts, fr, node, Counted(target, itv), body, is_async)
        if not self.mon.loops:
            return self.iterate1(itv, sts, fr, node, target, body, is_async)
        sts = [s.copy() for s in sts]
        for s in sts:
            self.emit(Event("loop", "", (itv,), {}, node, fr), s)
        ex, br = self.iterate1(itv, sts, fr, node, target, body, is_async)
        ex, br = [s.copy() for s in ex], [s.copy() for s in br]
        for how, l in (("end", ex), ("break", br)):
            for s in l:
                self.emit(Event("loopend", how, (itv,), {}, node, fr), s)
        return dedupe(ex), dedupe(br)

    def begin(self, itv, val, s, fr, node):
        if self.mon.loops:
            self.emit(Event("iter", "", (itv, val), {}, node, fr), s)

    def finish(self, itv, val, sts, fr, node):
        if not self.mon.loops:
            return sts
        sts = [s.copy() for s in sts]
        for s in sts:
            self.emit(Event("iterend", "", (itv, val), {}, node, fr), s)
        return sts

    def iterate1(self, itv, sts, fr, node, target, body, is_async=False):
        # exact small containers: unroll
        st0 = sts[0]
        alts = None
        if itv[0] == "tuple" and len(itv[1]) <= (64 if self.mon.exact else 8):
            alts = list(itv[1])
        elif itv[0] == "obj" and itv[2] in ("list", "set", "tuple", "dict", "defaultdict"):
            its = st0.heap.get((itv, "#c"))
            if its is not None and len(its) <= (40 if self.mon.exact else 8) and \
                    all(i[0] == "v" for i in its):
                alts = [i[1] for i in its]
        elif itv[0] == "c" and isinstance(itv[2], (tuple, str)) and len(itv[2]) <= 4:
            alts = [C(x) for x in itv[2]]
        elif itv[0] == "conv" and itv[1] in ("list", "tuple", "set", "iter", "sorted") \
                and itv[2][0] in ("tuple", "obj", "conv"):
            if itv[2][0] != "obj" or itv[2][2] in ("list", "set", "tuple", "dict", "defaultdict"):
                return self.iterate(itv[2], sts, fr, node, target, body, is_async)
        elif self.mon.exact and itv[0] == "conv" and itv[1] in ("reversed", "enumerate"):
            alts = self.exact_items(itv, st0)
            if alts is not None and len(alts) > 40:
                alts = None
        if alts is not None:
            cur, brks = list(sts), []
            if self.mon.exact and itv[0] == "obj" and itv[2] == "list":
                # as Python does: by index, in the list as it is then
                done = []
                for i in range(60):
                    nxt = []
                    for s in cur:
                        its = s.heap.get((itv, "#c"), ())
                        if i >= len(its) or its[i][0] != "v":
                            done.append(s)
                            continue
                        a = its[i][1]
                        for s1 in self.bind(target, a, s.copy(), fr):
                            self.begin(itv, a, s1, fr, node)
                            n, b = body(s1)
                            nxt += self.finish(itv, a, n, fr, node)
                            brks += b
                    cur = dedupe(nxt)
                    if not cur:
                        break
                return dedupe(done + cur), brks
            for a in alts:
                nxt = []
                for s in cur:
                    for s1 in self.bind(target, a, s.copy(), fr):
                        self.begin(itv, a, s1, fr, node)
                        n, b = body(s1)
                        nxt += self.finish(itv, a, n, fr, node)
                        brks += b
                cur = dedupe(nxt)
                if not cur:
                    break
            return cur, brks
        if itv[0] in ("gen", "cm"):
            brks = []

            def on(val, s):
                res = []
                for s1 in self.bind(target, val, s, fr):
                    self.begin(itv, val, s1, fr, node)
                    n, b = body(s1)
                    brks.extend(b)
                    res += self.finish(itv, val, n, fr, node)
                return res
            ends = []
            for s in sts:
                ends += [s1 for _, s1 in self.drain(itv, s, fr, on)]
            return dedupe(ends), brks
        cls = self.cls_of(itv, st0)
        if cls is not None:
            m = self.p.find_method(cls, "__iter__")
            if m is not None:
                ex, brks = [], []
                for s in sts:
                    for v, s1 in self.call(("func", m.uid, None, itv), [], {}, s, node, fr):
                        a, b = self.iterate(v, [s1], fr, node, target, body, is_async)
                        ex += a
                        brks += b
                return ex, brks
        if itv[0] == "iterfn":
            exits = []

            def step(h):
                nexts, brks = [], []
                for v, s in self.call(itv[1], [], {}, h, node, fr):
                    t, f = self.branch(("cmp", "==", v, itv[2]), s, fr, node)
                    exits.extend(t)
                    for s1 in f:
                        for s2 in self.bind(target, v, s1.copy(), fr):
                            self.begin(itv, v, s2, fr, node)
                            n, b = body(s2)
                            nexts += self.finish(itv, v, n, fr, node)
                            brks += b
                return nexts, brks
            brks = []
            for s in sts:
                brks += self.fixloop([s], step, fr, node, None)[1]
            return dedupe(exits), dedupe(brks)
        self.mon.vague = True
        lvl = sum(1 for a in self.active if a == itv)
        el = ("elem", itv, lvl)
        binds = self.elem_alternatives(itv, el)
        self.active.append(itv)
        try:
            def step(h):
                nexts, brks = [], []
                for val, facts in binds:
                    s = h.copy()
                    ok = True
                    for a, v in facts:
                        if s.facts.get(a, v) != v:
                            ok = False
                        s.facts[a] = v
                    if not ok:
                        continue
                    for s1 in self.bind(target, val, s, fr):
                        self.begin(itv, val, s1, fr, node)
                        n, b = body(s1)
                        nexts += self.finish(itv, val, n, fr, node)
                        brks += b
                return nexts, brks
            return self.fixloop(sts, step, fr, node, el)
        finally:
            self.active.pop()

    def elem_alternatives(self, itv, el):
        """Values the loop variable may take, each with the facts known."""
        base, rev = itv, el
        wrap = []
        while base[0] == "conv" and base[1] in (
                "list", "tuple", "set", "iter", "sorted", "reversed", "frozenset"):
            base = base[2]
        if base[0] == "conv" and base[1] == "enumerate":
            inner = base[2]
            sub = self.elem_alternatives(inner, ("elem", inner, el[2]))
            return [(("tuple", (("idx", el, C(0)), v)), f) for v, f in sub]
        if base[0] == "app" and base[1] == "zip" and base[2]:
            return [(("tuple", tuple(("elem", a, el[2]) for a in base[2])), ())]
        if base[0] == "comp":
            out = []
            for conds, elt in base[2]:
                out.append((elt, tuple(conds)))
            return out
        if base[0] == "app" and base[1] == "filter" and len(base[2]) == 2 \
                and base[2][0] == NONE:
            e = ("elem", base[2][1], el[2])
            return [(e, ((e, True),))]
        if base is not itv:
            return [(("elem", base, el[2]), ())]
        return [(el, ())]

    def fixloop(self, sts, step, fr, node, el=None):
        """Generic iteration to a fixpoint. -> (exhausted, breaks)"""
        heads, brks, ends_all = [], [], []
        seen, acc = {}, {}
        work = list(dedupe(sts))
        rounds = 0
        while work:
            h = work.pop(0)
            if rounds > (self.mon.loop_soft or self.LOOP_SOFT):
                # too many shapes: one state per monitor state from here on
                mates = [acc[h.mon, h.pend]] if (h.mon, h.pend) in acc else \
                    [o for o in heads if o.mon == h.mon and o.pend == h.pend]
                if mates:
                    h = self.merge_states(mates + [h], fr, node)
                acc[h.mon, h.pend] = h
            k = may_key(h)
            o = seen.get(k)
            if o is not None:
                h = may_join(o, h)
            if k in seen:
                if h.heap == o.heap and h.facts == o.facts:
                    continue
                heads.remove(o)
            seen[k] = h
            heads.append(h)
            rounds += 1
            if rounds > 400:
                raise Budget(f"loop at {fr.module.rel}:{getattr(node, 'lineno', 0)} "
                             "does not converge")
            nexts, b = step(h)
            brks += b
            for e in dedupe(nexts):
                ends_all.append((h, e))
                work.append(self.widen(h, e, fr, node, el))
        exits = []
        # what every iteration adds to a container
        common = None
        for h, e in ends_all:
            added = set()
            for key, its in e.heap.items():
                if key[1] == "#c":
                    before = h.heap.get(key, ())
                    for i in its:
                        if i not in before and i[0] in ("v", "all"):
                            added.add((key, i))
            common = added if common is None else (common & added)
        fcommon = None
        if el is not None:
            for h, e in ends_all:
                fs = {(a, v) for a, v in e.facts.items()
                      if h.facts.get(a) != v and self._about(a, el)}
                fcommon = fs if fcommon is None else (fcommon & fs)
        built = self.built_by(sts, ends_all, el) if el is not None else {}
        for h in heads:
            s = h.copy()
            for o, v in built.items():
                s.heap.pop((o, "#c"), None)
                s.env = {k: v if x == o else x for k, x in s.env.items()}
                s.heap = {k: v if x == o else x for k, x in s.heap.items()}
            if common and el is not None:
                for (key, i) in sorted(common, key=repr):
                    item = ("forall", el, i)
                    cur = s.heap.get(key, ())
                    if item not in cur:
                        s.heap[key] = cur + (item,)
            if fcommon:
                for a, v in fcommon:
                    s.facts[("forall", el, a)] = v
            exits.append(s)
        return dedupe(exits), dedupe(brks)

    def built_by(self, sts, ends, el):
        """Lists and sets that were empty before a loop and to which it does
        nothing but append: {object: the equivalent comprehension}."""
        cand = None
        for s in sts:
            mine = {k[0] for k, v in s.heap.items() if k[1] == "#c" and v == ()
                    and k[0][0] == "obj" and k[0][2] in ("list", "set")}
            cand = mine if cand is None else cand & mine
        res = {}
        for o in sorted(cand or (), key=repr):
            alts, ok = [], True
            for h, e in ends:
                before = h.heap.get((o, "#c"), ())
                after = e.heap.get((o, "#c"))
                if after is None or after[:len(before)] != before:
                    ok = False
                    break
                new = after[len(before):]
                if len(new) > 1 or any(i[0] != "v" or not mentions(i[1], el) for i in new):
                    ok = False
                    break
                if any(i[0] != "may" for i in before):
                    ok = False
                    break
                for i in new:
                    fs = tuple(sorted(((a, v) for a, v in e.facts.items()
                                       if h.facts.get(a) != v and mentions(a, el)), key=repr))
                    if (fs, i[1]) not in alts:
                        alts.append((fs, i[1]))
            if ok and alts and len(alts) <= 12:
                res[o] = ("comp", o[2], tuple(alts), el[1])
        return res

    def _about(self, atom, el):
        return mentions(atom, el)

    def widen(self, h, e, fr, node, el):
        s = e.copy()
        s.trace = h.trace
        s.facts = {a: v for a, v in h.facts.items() if e.facts.get(a) == v}
        sid = self.site(fr, node, "loop")
        env0 = dict(s.env)
        for k, v in list(s.env.items()):
            o = h.env.get(k)
            if o == v:
                continue
            if self._keep(v):
                continue
            if o is None and k[0] != fr.fid:
                continue
            s.env[k] = ("loop", sid, k[1] if isinstance(k[1], str) else "v",
                        self.typeof(v, s) or (self.typeof(o, h) if o else None))
        for k, v in list(s.heap.items()):
            o = h.heap.get(k)
            if k[1] == "returncode" and self.mon.proc_status and self.is_proc(k[0]):
                del s.heap[k]
                continue
            if nest(k) > 2:
                del s.heap[k]
                continue
            if o == v:
                continue
            if k[1] in ("#c", "#k"):
                base = o if o is not None else ()
                if o is None and k not in h.heap:
                    # object allocated inside the iteration
                    continue
                extra = tuple(("may", i) if i[0] != "may" else i
                              for i in v if i not in base)
                removed = any(i not in v for i in base)
                if removed:
                    base = tuple(i for i in base if i in v)
                new = base + tuple(x for x in extra if x not in base)
                s.heap[k] = new[:40]
                continue
            if self._keep(v):
                continue
            if o is None and k not in h.heap and k[0][0] == "obj" \
                    and not any(kk[0] == k[0] for kk in h.heap):
                continue
            s.heap[k] = ("loop", sid, ("h",) + k, self.typeof(v, s))
        if self.mon.widens:
            s.mon = self.mon.on_widen(s.mon, {v: s.env[k] for k, v in env0.items()
                                              if s.env.get(k, v) != v})
        return s

    def _keep(self, v):
        if v[0] == "c":
            return not (isinstance(v[2], (int, float)) and not isinstance(v[2], bool)) \
                or v[2] in self.mon.keep_ints
        return v[0] in ("obj", "enum", "class", "func", "unique", "ext", "elem",
                        "exc", "cm", "gen", "coro", "loop", "bound", "mod") or (
            v[0] in ("idx", "attr", "tuple", "app", "join", "str") and
            self._stable(v))

    def _stable(self, v):
        # terms made of stable parts only do not grow from one pass to the next
        d = 0
        t = v
        for x in _walk_depth(t):
            d = max(d, x)
            if d > 14:
                return False
        return True

    def drain(self, gen, st, fr, on_yield):
        """Run a generator object to completion. on_yield(value, state) ->
        states that resume."""
        func = self.p.funcs[gen[1]]
        return self.run_body(func, gen[2], gen[3], st, fr, on_yield=on_yield)

    # --------------------------------------------------------- assignments
    def bind(self, target, val, st, fr):
        """Assign val to an assignment target -> states."""
        if isinstance(target, Counted):
            return self.bind(target.target, ("tuple", (target.number, val)), st, fr)
        if isinstance(target, ast.Name):
            st.env[(self.scope_of(target.id, fr, st), target.id)] = val
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            star = [i for i, t in enumerate(target.elts) if isinstance(t, ast.Starred)]
            vals = None
            src = None
            if val[0] == "tuple":
                src = val[1]
            elif val[0] == "obj" and val[2] in ("list", "tuple"):
                its = st.heap.get((val, "#c"))
                if its is not None and all(i[0] == "v" for i in its):
                    src = tuple(i[1] for i in its)
            elif val[0] == "obj" and val[2] in self.p.class_by_qual:
                c = self.p.class_by_qual[val[2]]
                if c.is_dataclass and any(getattr(b, "id", getattr(b, "attr", "")) == "NamedTuple"
                                          for b in c.bases):
                    src = tuple(st.heap.get((val, k), ("attr", val, k)) for k, _ in c.fields)
            if src is not None and not star and len(src) == n:
                vals = list(src)
            elif src is not None and star and len(src) >= n - 1:
                i = star[0]
                k = len(src) - (n - 1)
                vals = list(src[:i]) + [("tuple", tuple(src[i:i + k]))] + list(src[i + k:])
            else:
                vals = []
                for i in range(n):
                    if star and i == star[0]:
                        vals.append(("slice", val, C(i), C(i - n + 1) if i - n + 1 else NONE))
                    elif star and i > star[0]:
                        vals.append(("idx", val, C(i - n)))
                    else:
                        vals.append(("idx", val, C(i)))
            sts = [st]
            for t, v in zip(target.elts, vals):
                if isinstance(t, ast.Starred):
                    t = t.value
                nxt = []
                for s in sts:
                    nxt += self.bind(t, v, s, fr)
                sts = nxt
            return sts
        if isinstance(target, ast.Attribute):
            out = []
            for b, s in self.eval(target.value, st, fr):
                s = s.copy()
                self.set_attr(b, target.attr, val, s, fr, target)
                out.append(s)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for b, s in self.eval(target.value, st, fr):
                for k, s1 in self.eval(target.slice, s, fr):
                    s1 = s1.copy()
                    self.set_item(b, k, val, s1, fr, target)
                    out.append(s1)
            return out
        if isinstance(target, ast.Starred):
            return self.bind(target.value, val, st, fr)
        return [st]

    def scope_of(self, name, fr, st):
        f = fr.func
        if f is not None and name in f.nonlocals:
            c = fr.closure
            while c is not None:
                fi, cc = self.finfo[c]
                if name in fi.assigned:
                    return c
                c = cc
        if f is not None and name in f.globals_:
            return 0
        return fr.fid

    def set_attr(self, b, name, val, st, fr, node):
        if b[0] in ("func", "ext", "mod"):
            return
        old = st.heap.get((b, name))
        st.heap[(b, name)] = val
        self.forget_about(("attr", b, name), st)
        self.emit(Event("setattr", name, (b, val), None, node, fr, extra=old), st)

    def set_item(self, b, k, val, st, fr, node):
        inn = ("cmp", "in", k, b)
        known = st.facts.get(inn)
        if b[0] == "obj" and b[2] in ("dict", "defaultdict"):
            kk = st.heap.get((b, "#k"), ())
            kk = tuple(x for x in kk if x[0] != k) + ((k, val),)
            st.heap[(b, "#k")] = kk
            its = st.heap.get((b, "#c"), ())
            if ("v", k) not in its:
                st.heap[(b, "#c")] = its + (("v", k),)
        else:
            st.heap[(b, ("k", k))] = val
            st.facts[inn] = True
            st.facts.pop(b, None)
        self.emit(Event("setitem", "setitem", (b, k, val), None, node, fr, extra=known), st)

    def forget_about(self, t, st):
        for a in [a for a in st.facts if mentions(a, t)]:
            del st.facts[a]

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts, sts, out, fr):
        for s in stmts:
            if not sts:
                break
            nxt = []
            for st in sts:
                nxt += self.exec(s, st, out, fr)
            sts = dedupe(nxt)
            self.max_states = max(self.max_states, len(sts))
            sts = self.bound_states(sts, fr, s)
            if len(sts) > 600:
                raise Budget(f"{len(sts)} states at {fr.module.rel}:{s.lineno}")
        return sts

    def exec(self, s, st, out, fr):
        self.steps += 1
        if self.steps > self.max_steps or self.mon.exact and time.process_time() > LATE:
            raise Budget("step budget exceeded")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            return [st]
        return m(s, st, out, fr)

    def x_Pass(self, s, st, out, fr):
        return [st]

    x_Global = x_Nonlocal = x_Pass

    def x_Expr(self, s, st, out, fr):
        if isinstance(s.value, ast.Constant):
            return [st]
        return [x for _, x in self.eval(s.value, st, fr)]

    def x_Import(self, s, st, out, fr):
        st = st.copy()
        for k, v in self.p.import_bindings(fr.module, s).items():
            if v[0] == "import":
                st.env[(fr.fid, k)] = (("mod", v[1]) if v[1] in self.p.modules
                                       else ("ext", v[1]))
            else:
                base, attr = v[1], v[2]
                if base in self.p.modules:
                    g = self.global_value(self.p.modules[base], attr, st, fr)
                    st.env[(fr.fid, k)] = g or ("mod", base + "." + attr)
                else:
                    st.env[(fr.fid, k)] = ("ext", base + "." + attr)
        return [st]

    x_ImportFrom = x_Import

    def x_FunctionDef(self, s, st, out, fr):
        f = self.p.make_func(s, fr.module, None, fr.func)
        st = st.copy()
        res = []
        base = ("func", f.uid, fr.fid, None)
        todo = [d for d in f.decos if not self._deco_known(d, f.module)]
        cur = [(base, st)]
        for d in reversed(todo):
            nxt = []
            for v, s1 in cur:
                for dv, s2 in self.eval(d, s1, fr):
                    if dv[0] == "func":
                        nxt += self.call(dv, [v], {}, s2, d, fr)
                    else:
                        nxt.append((v, s2))
            cur = nxt
        for v, s1 in cur:
            s1 = s1.copy()
            s1.env[(fr.fid, s.name)] = v
            res.append(s1)
        return res

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, st, out, fr):
        st = st.copy()
        c = self.p.class_by_qual.get(fr.module.name + "." + s.name)
        st.env[(fr.fid, s.name)] = ("ext", f"local.{s.name}")
        return [st]

    def x_Return(self, s, st, out, fr):
        if s.value is None:
            out.ret.append((NONE, st))
        else:
            for v, x in self.eval(s.value, st, fr):
                out.ret.append((v, x))
        return []

    def x_Assign(self, s, st, out, fr):
        res = []
        for v, x in self.eval(s.value, st, fr):
            sts = [x.copy()]
            for t in s.targets:
                nxt = []
                for y in sts:
                    nxt += self.bind(t, v, y, fr)
                sts = nxt
            res += sts
        return res

    def x_AnnAssign(self, s, st, out, fr):
        if s.value is None:
            return [st]
        ty = self.p.parse_type(fr.module, s.annotation)
        res = []
        for v, x in self.eval(s.value, st, fr):
            if ty and self.typeof(v, x) is None and v[0] in ("app", "attr", "idx"):
                v = ("typed", v, ty)
            elif ty and v[0] == "obj" and v[2] in ("dict", "list", "set"):
                x = x.copy()
                x.heap[(v, "#t")] = ty
            res += self.bind(s.target, v, x.copy(), fr)
        return res

    def x_AugAssign(self, s, st, out, fr):
        res = []
        load = _as_load(s.target)
        for old, x in self.eval(load, st, fr):
            for v, y in self.eval(s.value, x, fr):
                for n, z in self.binop(s.op, old, v, y, fr, s, inplace=True):
                    z = z.copy()
                    if n == old and old[0] == "obj":
                        res.append(z)
                        continue
                    res += self.bind(s.target, n, z, fr)
        return res

    def x_Delete(self, s, st, out, fr):
        sts = [st]
        for t in s.targets:
            nxt = []
            for x in sts:
                if isinstance(t, ast.Name):
                    x = x.copy()
                    x.env.pop((fr.fid, t.id), None)
                    nxt.append(x)
                elif isinstance(t, ast.Subscript):
                    for b, y in self.eval(t.value, x, fr):
                        for k, z in self.eval(t.slice, y, fr):
                            z = z.copy()
                            self.del_item(b, k, z)
                            self.emit(Event("delitem", "delitem", (b, k), None, t, fr), z)
                            nxt.append(z)
                elif isinstance(t, ast.Attribute):
                    for b, y in self.eval(t.value, x, fr):
                        y = y.copy()
                        y.heap.pop((b, t.attr), None)
                        nxt.append(y)
                else:
                    nxt.append(x)
            sts = nxt
        return sts

    def del_item(self, b, k, st):
        if b[0] == "obj" and b[2] in ("dict", "defaultdict"):
            st.heap[(b, "#k")] = tuple(
                x for x in st.heap.get((b, "#k"), ()) if x[0] != k)
            st.heap[(b, "#c")] = tuple(
                x for x in st.heap.get((b, "#c"), ()) if x != ("v", k))
        else:
            st.heap.pop((b, ("k", k)), None)
            st.facts[("cmp", "in", k, b)] = False

    def x_If(self, s, st, out, fr):
        t, f = self.cond(s.test, st, fr)
        res = self.exec_block(s.body, t, out, fr) if t else []
        if f:
            res = res + (self.exec_block(s.orelse, f, out, fr) if s.orelse else f)
        return dedupe(res)

    def x_Assert(self, s, st, out, fr):
        t, f = self.cond(s.test, st, fr)
        for x in f:
            self.throw(("exc", "AssertionError", True), x)
        return t

    def x_Raise(self, s, st, out, fr):
        if s.exc is None:
            e = self.current_exc(fr)
            self.last_event = None
            self.throw(e or ("exc", "Exception", False), st)
            return []
        for v, x in self.eval(s.exc, st, fr):
            self.last_event = None
            self.throw(self.to_exc(v), x)
        return []

    def current_exc(self, fr):
        f = fr
        while f is not None:
            if f.cur_exc is not None:
                return f.cur_exc
            f = f.caller
        return None

    def to_exc(self, v):
        if v[0] == "exc":
            return v
        if v[0] == "excclass":
            return ("exc", v[1], True)
        if v[0] == "class":
            return ("exc", v[1], True)
        if v[0] == "ext":
            return ("exc", M.canon_exc(v[1]), True)
        if v[0] == "app":
            n = M.canon_exc(v[1])
            anc = M.exc_ancestors(n, self.p)
            return ("exc", n, True)
        return ("exc", "Exception", False)

    def x_For(self, s, st, out, fr):
        res = []
        is_async = isinstance(s, ast.AsyncFor)
        for itv, x in self.eval(s.iter, st, fr):
            def body(z):
                o = Flow()
                n = self.exec_block(s.body, [z], o, fr)
                out.ret.extend(o.ret)
                return dedupe(n + o.cont), o.brk
            ex, br = self.iterate(itv, [x], fr, s, s.target, body, is_async)
            if s.orelse:
                ex = self.exec_block(s.orelse, ex, out, fr)
            res += ex + br
        return dedupe(res)

    x_AsyncFor = x_For

    def while_exact(self, s, st, out, fr):
        """A loop whose condition is known each time -> states, or None"""
        todo, done = [st.copy()], []
        saved = list(self.exc), list(out.ret)
        for _ in range(80):
            nxt = []
            for h in todo:
                t, f = self.cond(s.test, h, fr)
                if t and f:
                    self.exc[:], out.ret[:] = saved
                    return None
                done += [(x, False) for x in f]
                o = Flow()
                n = self.exec_block(s.body, t, o, fr) if t else []
                out.ret.extend(o.ret)
                nxt += n + o.cont
                done += [(x, True) for x in o.brk]
            todo = dedupe(nxt)
            if not todo:
                ends = dedupe([x for x, b in done if not b])
                if s.orelse:
                    ends = self.exec_block(s.orelse, ends, out, fr)
                return dedupe(ends + [x for x, b in done if b])
            if len(todo) > 8:
                break
        self.exc[:], out.ret[:] = saved
        return None

    def x_While(self, s, st, out, fr):
        if self.mon.exact:
            r = self.while_exact(s, st, out, fr)
            if r is not None:
                return r
        exits = []

        def step(h):
            t, f = self.cond(s.test, h, fr)
            exits.extend(f)
            o = Flow()
            n = self.exec_block(s.body, t, o, fr) if t else []
            out.ret.extend(o.ret)
            return dedupe(n + o.cont), o.brk
        _, brks = self.fixloop([st], step, fr, s, None)
        ex = dedupe(exits)
        if s.orelse:
            ex = self.exec_block(s.orelse, ex, out, fr)
        return dedupe(ex + brks)

    def x_Break(self, s, st, out, fr):
        out.brk.append(st)
        return []

    def x_Continue(self, s, st, out, fr):
        out.cont.append(st)
        return []

    # try -------------------------------------------------------------------
    def x_Try(self, s, st, out, fr):
        o = Flow()
        saved = self.exc
        self.exc = body_exc = []
        fr.try_depth += 1
        norm = self.exec_block(s.body, [st], o, fr)
        fr.try_depth -= 1
        # else clause: exceptions are not caught by our handlers
        late = []
        if s.orelse and norm:
            self.exc = late
            norm = self.exec_block(s.orelse, norm, o, fr)
        self.exc = rest = []
        handled = []
        for e, x in dedupe_pairs(body_exc):
            handled += self.handle(e, x, s.handlers, o, fr)
        self.exc = saved
        excs = rest + late
        norm = dedupe(norm + handled)
        if not s.finalbody:
            self.exc += dedupe_pairs(excs)
            out.brk += o.brk
            out.cont += o.cont
            out.ret += o.ret
            return norm
        # finally: runs for every kind of exit
        res = self.exec_block(s.finalbody, norm, out, fr) if norm else []
        for e, x in dedupe_pairs(excs):
            old = fr.cur_exc
            fr.cur_exc = e
            for y in self.exec_block(s.finalbody, [x], out, fr):
                self.exc.append((e, y))
            fr.cur_exc = old
        for x in dedupe(o.brk):
            out.brk += self.exec_block(s.finalbody, [x], out, fr)
        for x in dedupe(o.cont):
            out.cont += self.exec_block(s.finalbody, [x], out, fr)
        for v, x in dedupe_pairs(o.ret):
            for y in self.exec_block(s.finalbody, [x], out, fr):
                out.ret.append((v, y))
        return dedupe(res)

    x_TryStar = x_Try

    def handler_classes(self, h, st, fr):
        if h.type is None:
            return ["BaseException"]
        nodes = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for n in nodes:
            self.muted += 1
            try:
                v = self.eval(n, st, fr)[0][0]
            finally:
                self.muted -= 1
            if v[0] in ("excclass", "class"):
                out.append(v[1])
            elif v[0] == "ext":
                out.append(M.canon_exc(v[1]))
            elif v[0] == "tuple":
                out += [M.canon_exc(x[1]) for x in v[1] if len(x) > 1]
            else:
                out.append(M.canon_exc(dotted(n) or "Exception"))
        return out

    def match_exc(self, e, h):
        """'yes' | 'maybe' | 'no'"""
        anc = M.exc_ancestors(e[1], self.p)
        h = M.canon_exc(h)
        if h in anc:
            return "yes"
        if not e[2] and M.canon_exc(e[1]) in M.exc_ancestors(h, self.p):
            return "maybe"
        return "no"

    def handle(self, e, st, handlers, o, fr):
        res = []
        cur = e
        for h in handlers:
            for hc in self.handler_classes(h, st, fr):
                m = self.match_exc(cur, hc)
                if m == "no":
                    continue
                caught = cur if m == "yes" else ("exc", M.canon_exc(hc), False)
                res += self.run_handler(h, caught, st, o, fr)
                if m == "yes":
                    return res
        self.exc.append((cur, st))
        return res

    def run_handler(self, h, e, st, o, fr):
        x = st.copy()
        x.note(fr, h, f"except {e[1]}")
        if h.name:
            x.env[(fr.fid, h.name)] = e
        old = fr.cur_exc
        fr.cur_exc = e
        td = fr.try_depth
        fr.try_depth = max(0, td)
        self.emit(Event("handler", e[1], (e,), None, h, fr), x)
        r = self.exec_block(h.body, [x], o, fr)
        fr.cur_exc = old
        for y in r:
            y.env.pop((fr.fid, h.name), None)
        return r

    # with ------------------------------------------------------------------
    def x_With(self, s, st, out, fr):
        return self.do_with(s.items, 0, s.body, [st], out, fr,
                            isinstance(s, ast.AsyncWith), s)

    x_AsyncWith = x_With

    def do_with(self, items, i, body, sts, out, fr, is_async, node):
        if i == len(items):
            return self.exec_block(body, sts, out, fr)
        it = items[i]
        res = []
        for st in sts:
            for cm, x in self.eval(it.context_expr, st, fr):
                res += self.with_one(cm, it.optional_vars, x, out, fr, is_async, node,
                                     lambda ss, oo: self.do_with(
                                         items, i + 1, body, ss, oo, fr, is_async, node))
        return dedupe(res)

    def with_one(self, cm, target, st, out, fr, is_async, node, body):
        if cm[0] == "cm":
            func = self.p.funcs[cm[1]]
            side = Flow()
            tag = self.site(fr, node, ("w", cm))

            def on_yield(val, s):
                s = s.copy()
                sts = self.bind(target, val, s, fr) if target is not None else [s]
                o = Flow()
                n = body(sts, o)
                res = []
                for x in n:
                    x = x.copy()
                    x.pend = x.pend + ((tag, "n", NONE),)
                    res.append(x)
                for x in o.brk:
                    x = x.copy()
                    x.pend = x.pend + ((tag, "b", NONE),)
                    res.append(x)
                for x in o.cont:
                    x = x.copy()
                    x.pend = x.pend + ((tag, "c", NONE),)
                    res.append(x)
                for v, x in o.ret:
                    x = x.copy()
                    x.pend = x.pend + ((tag, "r", v),)
                    res.append(x)
                return res
            ends = self.run_body(func, cm[2], cm[3], st, fr,
                                 on_yield=on_yield)
            norm = []
            for _, x in ends:
                x = x.copy()
                if x.pend and x.pend[-1][0] == tag:
                    kind, v = x.pend[-1][1], x.pend[-1][2]
                    x.pend = x.pend[:-1]
                    if kind == "n":
                        norm.append(x)
                    elif kind == "b":
                        out.brk.append(x)
                    elif kind == "c":
                        out.cont.append(x)
                    else:
                        out.ret.append((v, x))
                else:
                    # the generator swallowed an exception raised by the body
                    norm.append(x)
            # strip our marker from exceptions raised after resume
            for j, (e, x) in enumerate(self.exc):
                if x.pend and x.pend[-1][0] == tag:
                    y = x.copy()
                    y.pend = y.pend[:-1]
                    self.exc[j] = (e, y)
            return dedupe(norm)
        cls = self.cls_of(cm, st)
        en = "__aenter__" if is_async else "__enter__"
        ex = "__aexit__" if is_async else "__exit__"
        if cls is not None and self.p.find_method(cls, en):
            me = self.p.find_method(cls, en)
            mx = self.p.find_method(cls, ex)

            def enter(s):
                r = []
                for v, y in self.call(("func", me.uid, None, cm), [], {}, s, node, fr):
                    r += self.await_value(v, y, node, fr) if v[0] == "coro" else [(v, y)]
                return r

            def leave(s, e):
                a = [NONE, NONE, NONE] if e is None else [
                    ("excclass", e[1]), e, ("app", "traceback", (), (), 0)]
                r = []
                for v, y in self.call(("func", mx.uid, None, cm), a, {}, s, node, fr):
                    r += self.await_value(v, y, node, fr) if v[0] == "coro" else [(v, y)]
                return r
            return self.with_protocol(enter, leave, target, st, out, fr, body)
        # foreign context manager
        return self.with_ext(cm, target, st, out, fr, is_async, node, body)

    def with_protocol(self, enter, leave, target, st, out, fr, body):
        norm = []
        for v, x in enter(st):
            x = x.copy()
            sts = self.bind(target, v, x, fr) if target is not None else [x]
            o = Flow()
            saved = self.exc
            self.exc = mine = []
            n = body(sts, o)
            self.exc = saved
            for y in dedupe(n):
                norm += [z for _, z in leave(y, None)]
            for y in dedupe(o.brk):
                out.brk += [z for _, z in leave(y, None)]
            for y in dedupe(o.cont):
                out.cont += [z for _, z in leave(y, None)]
            for rv, y in dedupe_pairs(o.ret):
                out.ret += [(rv, z) for _, z in leave(y, None)]
            for e, y in dedupe_pairs(mine):
                for rv, z in leave(y, e):
                    t, f = self.branch(rv, z, fr, None, "__exit__ suppresses") \
                        if rv[0] != "c" else ([z], []) if rv[2] else ([], [z])
                    if rv[0] == "c":
                        norm += t
                    for q in f:
                        self.exc.append((e, q))
        return dedupe(norm)

    def with_ext(self, cm, target, st, out, fr, is_async, node, body):
        name = cm[1] if cm[0] == "app" else ""
        if name == "contextlib.suppress":
            saved = self.exc
            self.exc = mine = []
            fr.try_depth += 1
            n = body([st], out)
            fr.try_depth -= 1
            self.exc = saved
            res = list(n)
            for e, x in dedupe_pairs(mine):
                cur = e
                done = False
                for a in cm[2]:
                    hc = a[1] if len(a) > 1 else "Exception"
                    m = self.match_exc(cur, hc)
                    if m != "no":
                        res.append(x)
                    if m == "yes":
                        done = True
                        break
                if not done:
                    self.throw(cur, x)
            return dedupe(res)
        isfile = cm[0] == "obj" and cm[2] == "file"
        if name in ("contextlib.ExitStack", "contextlib.AsyncExitStack"):
            return self.with_stack(cm, target, st, out, fr, node, body)

        def enter(s):
            if isfile:
                return [(cm, s)]
            s = s.copy()
            ev = Event("call", "cm.enter", (cm,), None, node, fr, extra=is_async)
            self.emit(ev, s)
            if is_async:
                self.await_point(s, node, fr)
                self.throw(("exc", "Exception", False), s)
            if name == "contextlib.closing":
                return [(cm[2][0], s)]
            return [(("app", "entered", (cm,), (), 0) if not self._selfenter(cm) else cm, s)]

        def leave(s, e):
            s = s.copy()
            if isfile or name == "contextlib.closing":
                f = cm if isfile else cm[2][0]
                r = []
                for _, s2 in self.file_close(f, s, fr, node, implicit=True):
                    r.append((NONE, s2))
                return r
            self.emit(Event("call", "cm.exit", (cm,), None, node, fr, extra=e), s)
            return [(NONE, s)]
        return self.with_protocol(enter, leave, target, st, out, fr, body)

    def with_stack(self, cm, target, st, out, fr, node, body):
        """contextlib.ExitStack: the callbacks registered in the body run in reverse order"""
        def enter(s):
            s = s.copy()
            o = self.obj(s, fr, node, "exitstack")
            s.heap[(o, "#cb")] = ("tuple", ())
            stack.append(o)
            return [(o, s)]
        stack = []

        def unwind(cbs, s):
            if not cbs:
                return [s]
            f, args, kw = cbs[-1][1]
            saved = self.exc
            self.exc = mine = []
            r = []
            for v, z in self.call(f, list(args[1]), dict(kw[1]), s, node, fr):
                r += self.await_value(v, z, node, fr) if v[0] == "coro" else [(v, z)]
            self.exc = saved
            res = []
            for _, z in r:
                res += unwind(cbs[:-1], z)
            for e, z in dedupe_pairs(mine):
                for y in unwind(cbs[:-1], z):
                    self.exc.append((e, y))
            return dedupe(res)

        def leave(s, e):
            cbs = s.heap.get((stack[-1], "#cb"))
            return [(NONE, z) for z in unwind(cbs[1] if cbs and cbs[0] == "tuple" else (), s)]
        return self.with_protocol(enter, leave, target, st, out, fr, body)

    def stack_method(self, recv, name, A, kw, st, node, fr):
        cbs = st.heap.get((recv, "#cb"))
        if cbs is None or cbs[0] != "tuple":
            return None
        st = st.copy()

        def push(f, args=(), kw=None, s=st):
            c = s.heap[(recv, "#cb")]
            s.heap[(recv, "#cb")] = ("tuple", c[1] + (("tuple", (f, ("tuple", tuple(args)),
                                                                 ("kwdict", tuple((kw or {}).items())))),))
        if name in ("callback", "push_async_callback") and A:
            push(A[0], A[1:], kw)
            return [(A[0], st)]
        if name == "pop_all":
            return None
        if name in ("push", "push_async_exit", "enter_context", "enter_async_context") and A:
            cm = A[0]
            cls = self.cls_of(cm, st)
            mx = cls and (self.p.find_method(cls, "__exit__") or self.p.find_method(cls, "__aexit__"))
            me = cls and (self.p.find_method(cls, "__enter__") or self.p.find_method(cls, "__aenter__"))
            res = [(cm, st)]
            if mx and me and name.startswith("enter"):
                res = []
                for v, y in self.call(("func", me.uid, None, cm), [], {}, st, node, fr):
                    res += self.await_value(v, y, node, fr) if v[0] == "coro" else [(v, y)]
            out = []
            for v, s in res:
                s = s.copy()
                if mx:
                    push(("func", mx.uid, None, cm), (NONE, NONE, NONE), {}, s)
                elif cm[0] == "obj" and cm[2] == "file":
                    push(("bound", cm, "close"), (), {}, s)
                elif cm[0] == "app" and cm[1] == "contextlib.closing":
                    push(("bound", cm[2][0], "close"), (), {}, s)
                    v = cm[2][0]
                out.append((v, s))
            return out
        if name in ("close", "aclose"):
            return [(NONE, st)]
        return None

    def _selfenter(self, cm):
        return True

    def file_close(self, f, st, fr, node, implicit=False):
        st = st.copy()
        st.heap[(f, "#closed")] = TRUE
        self.emit(Event("call", "file.close", (f,), None, node, fr,
                        extra="implicit" if implicit else None), st)
        return [(NONE, st)]

    # match -----------------------------------------------------------------
    def x_Match(self, s, st, out, fr):
        res = []
        for v, x in self.eval(s.subject, st, fr):
            cur = [x]
            for c in s.cases:
                nxt = []
                for y in cur:
                    t, f = self.match_pat(c.pattern, v, y, fr)
                    if c.guard is not None:
                        t2 = []
                        for z in t:
                            a, b = self.cond(c.guard, z, fr)
                            t2 += a
                            f = f + b
                        t = t2
                    if t:
                        res += self.exec_block(c.body, dedupe(t), out, fr)
                    nxt += f
                cur = dedupe(nxt)
            res += cur
        return dedupe(res)

    def match_pat(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            ts, fs = [], []
            for pv, s in self.eval(p.value, st, fr):
                t, f = self.branch(self.mkcmp("==", v, pv), s, fr, p)
                ts += t
                fs += f
            return ts, fs
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.mkcmp("is", v, C(p.value)), st, fr, p)
        if isinstance(p, ast.MatchOr):
            ts, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    t, f = self.match_pat(q, v, s, fr)
                    ts += t
                    nxt += f
                cur = nxt
            return ts, cur
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                s = st.copy()
                if p.name:
                    s.env[(fr.fid, p.name)] = v
                return [s], []
            t, f = self.match_pat(p.pattern, v, st, fr)
            if p.name:
                t = [x.copy() for x in t]
                for x in t:
                    x.env[(fr.fid, p.name)] = v
            return t, f
        if isinstance(p, ast.MatchClass):
            ts, fs = [], []
            for cv, s in self.eval(p.cls, st, fr):
                c = self.isinstance_term(v, cv, s)
                t, f = self.branch(c, s, fr, p)
                for x in t:
                    x = x.copy()
                    cur = [x]
                    for an, sub in zip(p.kwd_attrs, p.kwd_patterns):
                        nx = []
                        for y in cur:
                            for av, z in self.get_attr(v, an, y, fr, p):
                                a, b = self.match_pat(sub, av, z.copy(), fr)
                                nx += a
                                fs += b
                        cur = nx
                    ts += cur
                fs += f
            return ts, fs
        if isinstance(p, ast.MatchSequence):
            s = st.copy()
            cond = ("app", "matchseq", (v, C(len(p.patterns))), (), 0)
            t, f = self.branch(cond, s, fr, p)
            cur = t
            for i, q in enumerate(p.patterns):
                nx = []
                for x in cur:
                    iv = v[1][i] if v[0] == "tuple" and i < len(v[1]) else ("idx", v, C(i))
                    a, b = self.match_pat(q, iv, x, fr)
                    nx += a
                    f = f + b
                cur = nx
            return cur, f
        return [st], [st]

    # --------------------------------------------------------- expressions
    def eval(self, e, st, fr):
        self.steps += 1
        if self.steps > self.max_steps or self.mon.exact and self.steps % 64 == 0 and \
                time.process_time() > LATE:
            raise Budget("step budget exceeded")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(("app", type(e).__name__, (), (), self.site(fr, e)), st)]
        return m(e, st, fr)

    def eval_list(self, es, st, fr):
        """-> [([values], state)]; Starred entries yield ('star', v)."""
        cur = [([], st)]
        for e in es:
            nxt = []
            for vals, s in cur:
                if isinstance(e, ast.Starred):
                    for v, s1 in self.eval(e.value, s, fr):
                        nxt.append((vals + [("star", v)], s1))
                else:
                    for v, s1 in self.eval(e, s, fr):
                        nxt.append((vals + [v], s1))
            cur = nxt
        return cur

    def e_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return [(("unique", "..."), st)]
        return [(C(e.value), st)]

    def e_Name(self, e, st, fr):
        v = self.load_name(e.id, st, fr)
        return [(v, st)]

    def load_name(self, name, st, fr):
        v = st.env.get((fr.fid, name))
        if v is not None:
            return v
        c = fr.closure
        while c is not None:
            v = st.env.get((c, name))
            if v is not None:
                return v
            c = self.finfo[c][1] if c in self.finfo else None
        v = st.env.get((0, name))
        if v is not None:
            return v
        g = self.global_value(fr.module, name, st, fr)
        if g is not None:
            return g
        if fr.func is not None and name in fr.func.assigned:
            return ("app", "unbound", (C(name),), (), 0)
        b = getattr(__import__("builtins"), name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return ("excclass", M.canon_exc(name))
        if name == "__name__":
            return C(fr.module.name)
        return ("ext", name)

    def e_NamedExpr(self, e, st, fr):
        out = []
        for v, s in self.eval(e.value, st, fr):
            for s1 in self.bind(e.target, v, s.copy(), fr):
                out.append((v, s1))
        return out

    def e_Attribute(self, e, st, fr):
        out = []
        for b, s in self.eval(e.value, st, fr):
            out += self.get_attr(b, e.attr, s, fr, e)
        return out

    def class_attr(self, c, name, st, fr, node, self_val=None):
        """Attribute found on the class (method, property, constant) or None."""
        m = self.p.find_method(c, name)
        if m is not None:
            if self.has_deco(m, "property", "cached_property"):
                if self_val is None:
                    return [(("ext", m.qual), st)]
                return self.call(("func", m.uid, None, self_val), [], {}, st, node, fr)
            kind = self._kind(m)
            out = []
            for v, s in self.func_value(m, st, fr):
                if kind == "static":
                    out.append((v, s))
                elif kind == "class":
                    out.append((self._bind(v, ("class", c.qual)), s))
                elif self_val is not None:
                    out.append((self._bind(v, self_val), s))
                else:
                    out.append((v, s))
            return out
        r = self.p.find_attr(c, name)
        if r is not None:
            k, node_ = r
            if c.is_enum:
                return [(("enum", c.qual, name), st)]
            key = (k.qual, name, "cls")
            if key not in self.globals_cache:
                self.globals_cache[key] = self._eval_static(k.module, node_, k.qual + "." + name)
            v = self.globals_cache[key]
            if self.mon.const and is_c(v) and type(v[2]) is int:
                v = C(self.mon.const.get(v[2], v[2]))
            return [(v, st)]
        return None

    def get_attr(self, b, name, st, fr, node):
        if name in self.mon.reads:
            self.emit(Event("read", name, (b,), None, node, fr), st)
        k = b[0]
        if (b, name) in st.heap:
            return [(st.heap[(b, name)], st)]
        if name == "status_code" and k == "ext" and self.mon.exact and \
                b[1].rsplit(".", 1)[-1] in M.HTTP_STATUS:
            return [(C(M.HTTP_STATUS[b[1].rsplit(".", 1)[-1]]), st)]
        if is_c(b) and ("attr", name) in self.mon.ext:
            r = self.mon.ext["attr", name](b[2])
            if r is not None:
                return [(r, st)]
        if name == "returncode" and self.mon.proc_status and self.is_proc(b):
            return self.proc_end(b, st, fr, node)
        if k == "sig" and name == "parameters":
            return [(("sigparams", b[1]), st)]
        if k == "sigparam" and name in ("name", "annotation"):
            if name == "name":
                return [(C(b[2]), st)]
            f = self.p.funcs[b[1]]
            an = next((x.annotation for x in f.node.args.posonlyargs + f.node.args.args +
                       f.node.args.kwonlyargs if x.arg == b[2]), None)
            if an is not None:
                r = self.eval(an, st, Fr(None, -9, None, f.module, fr))
                if len(r) == 1:
                    return [(r[0][0], st)]
            return [(("attr", b, name), st)]
        if k == "mod":
            m = self.p.modules.get(b[1])
            if m is not None:
                g = self.global_value(m, name, st, fr)
                if g is not None:
                    return [(g, st)]
            if b[1] + "." + name in self.p.modules:
                return [(("mod", b[1] + "." + name), st)]
            return [(("ext", b[1] + "." + name), st)]
        if k == "ext":
            full = b[1] + "." + name
            if full in self.p.modules:
                return [(("mod", full), st)]
            return [(("ext", full), st)]
        if k == "class":
            c = self.p.class_by_qual.get(b[1])
            if c is not None:
                if c.is_enum and name in c.attrs:
                    return [(("enum", c.qual, name), st)]
                r = self.class_attr(c, name, st, fr, node)
                if r is not None:
                    return r
                if name in ("__name__", "__qualname__"):
                    return [(C(c.name), st)]
            return [(("attr", b, name), st)]
        if k == "enum" and name == "value":
            c = self.p.class_by_qual.get(b[1])
            if c and b[2] in c.attrs and isinstance(c.attrs[b[2]], ast.Constant):
                return [(C(c.attrs[b[2]].value), st)]
        if k == "enum" and name == "name":
            return [(C(b[2]), st)]
        if k == "func" and name in ("__name__", "__qualname__"):
            f = self.p.funcs[b[1]]
            return [(C(f.name if name == "__name__" else
                       (f.cls.name + "." if f.cls else "") + f.name), st)]
        if k == "super":
            c = self.p.class_by_qual[b[2]]
            for kc in self.p.mro(c)[1:]:
                if name in kc.methods:
                    m = kc.methods[name]
                    kind = self._kind(m)
                    out = []
                    for v, s in self.func_value(m, st, fr):
                        out.append((v if kind == "static" else self._bind(v, b[1]), s))
                    return out
            return [(("bound", b, name), st)]
        if k == "obj" and b[2] == "file":
            if name == "name":
                return [(st.heap.get((b, "#path"), ("attr", b, "name")), st)]
            if name in M.FILE_METHODS or name in ("fileno",):
                return [(("bound", b, name), st)]
            return [(("attr", b, name), st)]
        c = self.cls_of(b, st)
        if c is not None:
            m = self.p.find_method(c, name)
            if m is not None or (k == "obj" and self.p.find_attr(c, name)):
                if m is not None and self.has_deco(m, "abstractmethod"):
                    ty = self.p.attr_type(c, name)
                    return [(("bound", b, name), st)]
                r = self.class_attr(c, name, st, fr, node, self_val=b)
                if r is not None:
                    return r
            if name == "__class__":
                return [(("class", c.qual), st)]
            at = self.p.find_attr(c, name)
            if at is not None and self.p.attr_type(c, name) is None:
                # class constant never assigned on instances
                if not self.assigned_somewhere(c, name):
                    r = self.class_attr(c, name, st, fr, node, self_val=b)
                    if r is not None:
                        return r
            return [(("attr", b, name), st)]
        if k == "exc":
            return [(("attr", b, name), st)]
        if self.is_path(b, st):
            if name == "parent":
                return [(dirname(b), st)] if b[0] == "join" else [(("attr", b, "parent"), st)]
            if name == "name" and b[0] == "join":
                return [(b[2], st)]
        return [(("attr", b, name), st)]

    def assigned_somewhere(self, c, name):
        key = ("assigned", name)
        if key not in self.globals_cache:
            hit = False
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if (isinstance(n, ast.Attribute) and n.attr == name
                            and isinstance(n.ctx, ast.Store)):
                        hit = True
            self.globals_cache[key] = hit
        return self.globals_cache[key]

    def e_Subscript(self, e, st, fr):
        out = []
        for b, s in self.eval(e.value, st, fr):
            if isinstance(e.slice, ast.Slice):
                parts = [e.slice.lower, e.slice.upper, e.slice.step]
                cur = [([], s)]
                for p in parts:
                    nxt = []
                    for vs, s1 in cur:
                        if p is None:
                            nxt.append((vs + [NONE], s1))
                        else:
                            for v, s2 in self.eval(p, s1, fr):
                                nxt.append((vs + [v], s2))
                    cur = nxt
                for vs, s1 in cur:
                    if self.mon.exact and b[0] in ("obj", "conv") and all(is_c(v) for v in vs):
                        its = self.exact_items(b, s1)
                        if its is not None:
                            try:
                                its = its[slice(*(v[2] for v in vs))]
                            except Exception:
                                continue
                            out.append(self.mkcont("list", its, s1, fr, e))
                            continue
                    out.append((self.mkslice(b, vs), s1))
                continue
            for k, s1 in self.eval(e.slice, s, fr):
                out += self.get_item(b, k, s1, fr, e)
        return out

    def exact_items(self, v, st):
        """the elements of a list all of which are known, else None"""
        if v[0] == "tuple":
            return list(v[1])
        if v[0] == "obj" and v[2] in ("list", "tuple"):
            its = st.heap.get((v, "#c"))
            if its is not None and all(i[0] == "v" for i in its):
                return [i[1] for i in its]
        if v[0] == "conv" and v[1] == "iter" and v[2][0] == "obj" and v[2][2] in ("dict", "defaultdict") or \
                v[0] == "obj" and v[2] in ("dict", "defaultdict"):
            its = st.heap.get((v[2] if v[0] == "conv" else v, "#c"))
            if its is not None and all(i[0] == "v" for i in its):
                return [i[1] for i in its]
        if v[0] == "conv" and v[1] in ("list", "tuple", "iter"):
            return self.exact_items(v[2], st)
        if v[0] == "conv" and v[1] == "reversed":
            x = self.exact_items(v[2], st)
            return x and x[::-1]
        if v[0] == "conv" and v[1] == "enumerate":
            x = self.exact_items(v[2], st)
            return x and [("tuple", (C(i), y)) for i, y in enumerate(x)]
        return None

    def own_iter(self, v, st, fr, node):
        """what iterating over an object of the repository goes over"""
        if self.mon.exact and v[0] == "obj":
            cls = self.cls_of(v, st)
            m = cls and self.p.find_method(cls, "__iter__")
            if m and not m.is_gen:
                r = self.call(("func", m.uid, None, v), [], {}, st, node, fr)
                if len(r) == 1:
                    return r[0]
        return v, st

    def exact_set(self, v, st):
        """the elements of a set of constants, else None"""
        if v[0] == "conv" and v[1] in ("set", "frozenset", "list", "tuple", "iter", "sorted"):
            return self.exact_set(v[2], st)
        if v[0] == "tuple":
            its = [("v", x) for x in v[1]]
        elif v[0] == "obj" and v[2] in ("set", "list", "tuple", "dict", "defaultdict"):
            its = st.heap.get((v, "#c"))
        else:
            return None
        if its is None or not all(i[0] == "v" and self.plain(i[1]) for i in its):
            return None
        return list(dict.fromkeys(i[1] for i in its))

    def setlike(self, v, st):
        """the elements of a set (or a view on keys) of constants, else None"""
        if v[0] == "conv" and v[1] in ("set", "frozenset") or v[0] == "obj" and v[2] in ("set", "frozenset"):
            x = self.exact_set(v, st)
            return x if x is None else frozenset(x)
        if v[0] == "app" and v[1].endswith(".keys") and len(v[2]) == 1:
            x = self.exact_set(v[2][0], st)
            return x if x is None else frozenset(x)
        return None

    def exact_compare(self, op, a, b, st):
        """comparison of sets or lists of constants"""
        x, y = self.setlike(a, st), self.setlike(b, st)
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and (x is None) != (y is None):
            v = b if x is not None else a       # a view on the keys of a dict
            v = self.exact_set(v, st) if v[0] == "tuple" else None
            v = v if v is None else frozenset(v)
            x, y = (x, v) if x is not None else (v, y)
        if x is not None and y is not None:
            f = {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: x < y,
                 ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}.get(type(op))
            return f() if f else None
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if x is not None and is_c(b) or y is not None and is_c(a):
                return isinstance(op, ast.NotEq)
            if self.plain(a) and self.plain(b):
                return (a == b) == isinstance(op, ast.Eq)
            if a[0] == b[0] == "obj" and a[2] == b[2] == "list" or a[0] == b[0] == "tuple":
                x, y = self.exact_items(a, st), self.exact_items(b, st)
                if x is not None and y is not None and all(is_c(i) for i in x + y):
                    return (x == y) == isinstance(op, ast.Eq)
        if isinstance(op, (ast.In, ast.NotIn)) and a[0] in ("tuple", "join") and self.plain(a):
            x = self.setlike(b, st)
            if x is not None:
                return (a in x) == isinstance(op, ast.In)
            if b[0] == "app" and b[1].endswith(".keys") and len(b[2]) == 1:
                b = b[2][0]
            x = self.exact_items(b[2] if b[0] == "conv" and b[1] in ("set", "frozenset") else b, st)
            if x is not None and all(self.plain(i) for i in x):
                return (a in x) == isinstance(op, ast.In)
        return None

    def plain(self, v):
        """a constant, a path below a given directory or a tuple of such"""
        if v[0] == "join" and self.mon.root_path is not None:
            return is_c(v[2]) and (v[1] == self.mon.root_path or self.plain(v[1]))
        return is_c(v) or v[0] == "tuple" and all(self.plain(x) for x in v[1])

    def exact_sorted(self, v, kw, st, node, fr):
        its = self.exact_items(v, st)
        if its is None:
            its = self.exact_set(v, st)
        if its is None:
            return None
        keys = []
        for x in its:
            k = x
            if kw.get("key", NONE) != NONE:
                saved, self.exc = self.exc, []
                rs = self.call(kw["key"], [x], {}, st, node, fr)
                bad, self.exc = self.exc, saved
                if len(rs) != 1 or bad:
                    return None
                k = rs[0][0]
            ks = list(k[1]) if k[0] == "tuple" else [k]
            if not all(is_c(y) for y in ks):
                return None
            keys.append([y[2] for y in ks])
        rev = kw.get("reverse", FALSE)
        if not is_c(rev):
            return None
        try:
            order = sorted(range(len(its)), key=lambda i: keys[i], reverse=bool(rev[2]))
        except TypeError:
            return None
        return [its[i] for i in order]

    def mkslice(self, b, vs):
        if is_c(b) and all(is_c(v) for v in vs):
            try:
                return C(b[2][slice(vs[0][2], vs[1][2], vs[2][2])])
            except Exception:
                pass
        if b[0] == "tuple" and all(is_c(v) for v in vs):
            return ("tuple", b[1][slice(vs[0][2], vs[1][2], vs[2][2])])
        if vs[2] == C(-1) and vs[0] == NONE and vs[1] == NONE:
            return ("conv", "reversed", b)
        if vs == [NONE, NONE, NONE]:
            return ("conv", "list", b)
        # x[:len(x)-n]  ->  x[:-n]
        lo, hi = vs[0], vs[1]
        if hi[0] == "bin" and hi[1] == "-" and hi[2] == ("app", "len", (b,), (), 0):
            hi = self.neg(hi[3])
        if lo[0] == "bin" and lo[1] == "-" and lo[2] == ("app", "len", (b,), (), 0):
            lo = self.neg(lo[3])
        if lo == C(0):
            lo = NONE
        return ("slice", b, lo, hi)

    @staticmethod
    def neg(v):
        if is_c(v) and isinstance(v[2], (int, float)):
            return C(-v[2])
        if v[0] == "un" and v[1] == "-":
            return v[2]
        return ("un", "-", v)

    def get_item(self, b, k, st, fr, node):
        if b[0] == "tuple" and is_c(k) and isinstance(k[2], int):
            try:
                return [(b[1][k[2]], st)]
            except IndexError:
                pass
        if b[0] == "c" and k[0] == "c":
            try:
                return [(C(b[2][k[2]]), st)]
            except Exception:
                pass
        if b[0] == "kwdict":
            for n, v in b[1]:
                if k == C(n):
                    return [(v, st)]
        if b[0] == "sigparams" and is_str(k):
            return [(("sigparam", b[1], k[2]), st)]
        if b[0] == "obj" and b[2] in ("dict", "defaultdict"):
            kk = st.heap.get((b, "#k"), ())
            for n, v in kk:
                if n == k:
                    return [(v, st)]
            if self.mon.exact and is_c(k) and all(is_c(x) for x, _ in kk) and \
                    len(st.heap.get((b, "#c"), (0,) * 99)) == len(kk):
                if (b, "#d") in st.heap:
                    out = []
                    for v, s in self.call(st.heap[(b, "#d")], [], {}, st, node, fr):
                        s = s.copy()
                        self.set_item(b, k, v, s, fr, node)
                        out.append((v, s))
                    return out
                if b[2] == "dict":
                    self.throw(("exc", "KeyError", True), st)
                    return []
        if b[0] == "obj" and b[2] in ("list", "tuple") and is_c(k) and isinstance(k[2], int):
            its = st.heap.get((b, "#c"))
            if its is not None and all(i[0] == "v" for i in its):
                try:
                    return [(its[k[2]][1], st)]
                except IndexError:
                    if self.mon.exact:
                        self.throw(("exc", "IndexError", True), st)
                        return []
        if (b, ("k", k)) in st.heap:
            return [(st.heap[(b, ("k", k))], st)]
        c = self.cls_of(b, st)
        if c is not None:
            m = self.p.find_method(c, "__getitem__")
            if m is not None:
                return self.call(("func", m.uid, None, b), [k], {}, st, node, fr)
        if fr.try_depth > 0:
            self.throw(("exc", "LookupError", False), st)
        if b[0] == "conv" and b[1] == "reversed" and is_c(k) and isinstance(k[2], int):
            # reversed(x)[0] is x[-1]
            return [(("idx", b[2], C(-k[2] - 1)), st)]
        if b[0] == "conv" and b[1] in ("list", "tuple") and not (
                b[2][0] == "app" and b[2][1] == "dict.fromkeys"):
            b = b[2]
        # x[len(x)-1] -> x[-1]
        if k[0] == "bin" and k[1] == "-" and k[2] == ("app", "len", (b,), (), 0):
            k = self.neg(k[3])
        return [(("idx", b, k), st)]

    def e_Tuple(self, e, st, fr):
        out = []
        for vs, s in self.eval_list(e.elts, st, fr):
            flat = self.flatten_star(vs, s)
            if flat is not None:
                out.append((("tuple", tuple(flat)), s))
            else:
                out.append(self.mkcont("tuple", vs, s, fr, e))
        return out

    def flatten_star(self, vs, st):
        out = []
        for v in vs:
            if v[0] == "star":
                x = v[1]
                if x[0] == "tuple":
                    out += list(x[1])
                elif x[0] == "obj" and x[2] in ("list", "tuple", "set"):
                    its = st.heap.get((x, "#c"))
                    if its is None or any(i[0] != "v" for i in its):
                        return None
                    out += [i[1] for i in its]
                else:
                    return None
            else:
                out.append(v)
        return out

    def mkcont(self, kind, vs, st, fr, node):
        st = st.copy()
        o = self.obj(st, fr, node, kind)
        its = []
        for v in vs:
            if v[0] == "star":
                x = v[1]
                if x[0] == "tuple":
                    its += [("v", y) for y in x[1]]
                elif x[0] == "obj" and (x, "#c") in st.heap:
                    its += list(st.heap[(x, "#c")])
                else:
                    its.append(("all", x))
            else:
                its.append(("v", v))
        st.heap[(o, "#c")] = tuple(its)
        return o, st

    def e_List(self, e, st, fr):
        return [self.mkcont("list", vs, s, fr, e)
                for vs, s in self.eval_list(e.elts, st, fr)]

    def e_Set(self, e, st, fr):
        return [self.mkcont("set", vs, s, fr, e)
                for vs, s in self.eval_list(e.elts, st, fr)]

    def e_Dict(self, e, st, fr):
        cur = [([], st)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for ps, s in cur:
                if k is None:
                    for vv, s1 in self.eval(v, s, fr):
                        nxt.append((ps + [(None, vv)], s1))
                else:
                    for kv, s1 in self.eval(k, s, fr):
                        for vv, s2 in self.eval(v, s1, fr):
                            nxt.append((ps + [(kv, vv)], s2))
            cur = nxt
        return [self.mkdict(ps, s, fr, e) for ps, s in cur]

    def mkdict(self, pairs, st, fr, node):
        st = st.copy()
        o = self.obj(st, fr, node, "dict")
        kk, its = [], []
        for k, v in pairs:
            if k is None:
                if v[0] == "kwdict":
                    for n, x in v[1]:
                        kk = [p for p in kk if p[0] != C(n)] + [(C(n), x)]
                        its.append(("v", C(n)))
                elif v[0] == "obj" and (v, "#k") in st.heap:
                    for n, x in st.heap[(v, "#k")]:
                        kk = [p for p in kk if p[0] != n] + [(n, x)]
                    its += list(st.heap.get((v, "#c"), ()))
                else:
                    its.append(("all", v))
            else:
                kk = [p for p in kk if p[0] != k] + [(k, v)]
                its.append(("v", k))
        st.heap[(o, "#k")] = tuple(kk)
        st.heap[(o, "#c")] = tuple(dict.fromkeys(its))
        return o, st

    def e_JoinedStr(self, e, st, fr):
        cur = [([], st)]
        for p in e.values:
            nxt = []
            for vs, s in cur:
                if isinstance(p, ast.Constant):
                    nxt.append((vs + [C(p.value)], s))
                else:
                    for v, s1 in self.eval(p.value, s, fr):
                        if p.format_spec is not None or p.conversion not in (-1, 115):
                            spec = ast.unparse(p.format_spec) if p.format_spec else ""
                            v = ("app", "format", (v, C(spec + str(p.conversion))), (), 0)
                        nxt.append((vs + [v], s1))
            cur = nxt
        return [(strcat(vs) if vs else C(""), s) for vs, s in cur]

    def e_FormattedValue(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        out = []
        cur = [st]
        for i, ve in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                for v, s1 in self.eval(ve, s, fr):
                    if last:
                        out.append((v, s1))
                        continue
                    t, f = self.branch(v, s1, fr, ve, ast.unparse(ve)[:70])
                    go, stop = (t, f) if isand else (f, t)
                    for x in stop:
                        out.append((v, x))
                    nxt += go
            cur = dedupe(nxt)
        return dedupe_pairs(out)

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st, fr)
            if t and f and len(t) == 1 and len(f) == 1 \
                    and t[0].key() == f[0].key() == st.key():
                vs = self.eval(e.operand, st, fr)
                if len(vs) == 1:
                    v = vs[0][0]
                    return [(v[1] if v[0] == "not" and v[1][0] in ("cmp", "not") else ("not", v), vs[0][1])]
            return [(FALSE, s) for s in t] + [(TRUE, s) for s in f]
        out = []
        for v, s in self.eval(e.operand, st, fr):
            if isinstance(e.op, ast.USub):
                out.append((self.neg(v), s))
            elif isinstance(e.op, ast.UAdd):
                out.append((v, s))
            else:
                out.append((("un", "~", v), s))
        return out

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
           ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitOr: "|",
           ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
           ast.MatMult: "@"}

    def e_BinOp(self, e, st, fr):
        out = []
        for a, s in self.eval(e.left, st, fr):
            for b, s1 in self.eval(e.right, s, fr):
                out += self.binop(e.op, a, b, s1, fr, e)
        return out

    def binop(self, opn, a, b, st, fr, node, inplace=False):
        op = self.OPS[type(opn)]
        if is_c(a) and is_c(b):
            try:
                import operator as O
                fn = {"+": O.add, "-": O.sub, "*": O.mul, "/": O.truediv,
                      "//": O.floordiv, "%": O.mod, "|": O.or_, "&": O.and_,
                      "^": O.xor, "<<": O.lshift, ">>": O.rshift}.get(op)
                if op == "**" and isinstance(b[2], int) and 0 <= b[2] < 64:
                    fn = O.pow
                if op == "*" and not (isinstance(a[2], (int, float)) and isinstance(b[2], (int, float))):
                    fn = None
                if op == "*" and self.mon.exact and fn is None:
                    n = a[2] * b[2]
                    if len(n) <= 64:
                        return [(C(n), st)]
                if fn is not None:
                    r = fn(a[2], b[2])
                    if self.mon.const and type(r) is int:
                        r = self.mon.const.get(r, r)
                    return [(C(r), st)]
            except Exception:
                pass
        if op == "|" and TRUE in (a, b):
            return [(TRUE, st)]
        if op == "/" and (self.is_path(a, st) or (self.typeof(a, st) is None and (is_str(b) or b[0] == "str"))):
            return [(join(a, b), st)]
        if op == "/" and self.typeof(a, st) is None and b[0] == "attr" and b[2] in ("uuid", "name"):
            return [(join(a, b), st)]
        if op == "%" and is_str(a):
            args = list(b[1]) if b[0] == "tuple" else [b]
            parts = a[2].split("%s")
            if len(parts) == len(args) + 1 and "%" not in "".join(parts):
                r = []
                for i, p in enumerate(parts):
                    r.append(C(p))
                    if i < len(args):
                        r.append(args[i])
                return [(strcat(r), st)]
        if op == "+":
            if is_str(a) or is_str(b) or a[0] == "str" or b[0] == "str":
                return [(strcat((a, b)), st)]
            if (is_c(a) and isinstance(a[2], bytes)) or (is_c(b) and isinstance(b[2], bytes)):
                return [(strcat((a, b)), st)]
            ty = self.typeof(a, st), self.typeof(b, st)
            if ("ext", "str") in ty:
                return [(strcat((a, b)), st)]
            la = a[0] == "obj" and a[2] == "list" or a[0] == "tuple"
            lb = b[0] == "obj" and b[2] == "list" or b[0] == "tuple"
            if la or lb:
                if a[0] == "tuple" and b[0] == "tuple":
                    return [(("tuple", a[1] + b[1]), st)]
                if inplace and a[0] == "obj":
                    st = st.copy()
                    st.heap[(a, "#c")] = st.heap.get((a, "#c"), ()) + self.contents(b, st)
                    return [(a, st)]
                st = st.copy()
                ca, cb = self.contents(a, st), self.contents(b, st)
                o = self.obj(st, fr, node, "list")
                st.heap[(o, "#c")] = ca + cb
                return [(o, st)]
        if op == "|" and a[0] == "obj" and a[2] == "dict" and b[0] == "obj" and b[2] == "dict":
            return [self.mkdict([(None, a), (None, b)], st, fr, node)]
        if self.mon.exact and op in ("-", "&", "|", "^") and a[0] in ("obj", "tuple"):
            x, y = self.exact_set(a, st), self.exact_set(b, st)
            if x is not None and y is not None and (op != "|" or x or y):
                r = {"-": [i for i in x if i not in y], "&": [i for i in x if i in y],
                     "|": x + [i for i in y if i not in x],
                     "^": [i for i in x if i not in y] + [i for i in y if i not in x]}[op]
                st = st.copy()
                o = a
                if not inplace or a[0] != "obj":
                    o = self.obj(st, fr, node, "set")
                st.heap[(o, "#c")] = tuple(("v", i) for i in r)
                return [(o, st)]
        if op == "|" and a[0] == "obj" and a[2] == "set":
            st = st.copy()
            if inplace:
                st.heap[(a, "#c")] = st.heap.get((a, "#c"), ()) + self.contents(b, st)
                return [(a, st)]
            ca, cb = self.contents(a, st), self.contents(b, st)
            o = self.obj(st, fr, node, "set")
            st.heap[(o, "#c")] = ca + cb
            return [(o, st)]
        return [(("bin", op, a, b), st)]

    def contents(self, v, st):
        """What a container holds, as items."""
        if v[0] == "tuple":
            return tuple(("v", x) for x in v[1])
        if v[0] == "obj" and (v, "#c") in st.heap:
            return st.heap[(v, "#c")]
        if v[0] == "conv" and v[1] in ("list", "tuple", "set", "sorted", "reversed", "iter", "frozenset"):
            return self.contents(v[2], st)
        if v[0] == "app" and v[1] in (".copy",) and v[2]:
            return self.contents(v[2][0], st)
        return (("all", v),)

    def mkcmp(self, op, a, b):
        return ("cmp", op, a, b)

    CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
            ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
            ast.NotIn: "not in"}

    def e_Compare(self, e, st, fr):
        cur = [([], st)]
        for x in [e.left] + e.comparators:
            nxt = []
            for vs, s in cur:
                for v, s1 in self.eval(x, s, fr):
                    nxt.append((vs + [v], s1))
            cur = nxt
        out = []
        for vs, s in cur:
            if self.mon.exact and len(e.ops) == 1:
                r = self.exact_compare(e.ops[0], vs[0], vs[1], s)
                if r is not None:
                    out.append((C(r), s))
                    continue
            terms = [self.mkcmp(self.CMPS[type(o)], vs[i], vs[i + 1])
                     for i, o in enumerate(e.ops)]
            if len(terms) == 1:
                t = terms[0]
                r = self.truth(t, s)
                if r is not None and t[1] in ("in", "not in") and t[3][0] == "obj" \
                        and t[2][0] != "c":
                    # decided by the known content: rules still want to see it
                    s = s.copy()
                    s.facts[("cmp", "in", t[2], t[3])] = r == (t[1] == "in")
                out.append((C(r) if r is not None else t, s))
                continue
            sts = [s]
            for t in terms:
                nx = []
                for y in sts:
                    a, b = self.branch(t, y, fr, e)
                    nx += a
                    out += [(FALSE, z) for z in b]
                sts = nx
            out += [(TRUE, z) for z in sts]
        return out

    def e_IfExp(self, e, st, fr):
        t, f = self.cond(e.test, st, fr)
        out = []
        for s in t:
            out += self.eval(e.body, s, fr)
        for s in f:
            out += self.eval(e.orelse, s, fr)
        return dedupe_pairs(out)

    def e_Lambda(self, e, st, fr):
        f = self.p.make_func(e, fr.module, None, fr.func)
        return [(("func", f.uid, fr.fid, None), st)]

    def e_Starred(self, e, st, fr):
        return [(("star", v), s) for v, s in self.eval(e.value, st, fr)]

    def e_Await(self, e, st, fr):
        out = []
        for v, s in self.eval(e.value, st, fr):
            out += self.await_value(v, s, e, fr)
        return out

    def await_point(self, st, node, fr):
        if self.cancel:
            self.throw(("exc", "asyncio.CancelledError", True), st)

    def await_value(self, v, st, node, fr):
        if v[0] == "coro":
            func = self.p.funcs[v[1]]
            return self.run_body(func, v[2], v[3], st, fr)
        st = st.copy()
        if self.mon.ext and "await" in self.mon.ext:
            r = self.mon.ext["await"](self, v, st)
            if r is not None:
                return r
        self.emit(Event("await", "await", (v,), None, node, fr), st)
        self.await_point(st, node, fr)
        return [(v, st)]

    def e_Yield(self, e, st, fr):
        if e.value is None:
            vals = [(NONE, st)]
        else:
            vals = self.eval(e.value, st, fr)
        out = []
        for v, s in vals:
            if fr.on_yield is None:
                out.append((NONE, s))
            else:
                sent = ("app", "sent", (), (), 0)
                for s1 in fr.on_yield(v, s):
                    out.append((NONE, s1))
        return out

    def e_YieldFrom(self, e, st, fr):
        out = []
        for v, s in self.eval(e.value, st, fr):
            if v[0] == "gen" and fr.on_yield is not None:
                out += self.drain(v, s, fr, fr.on_yield)
            elif fr.on_yield is not None:
                ex, br = self.iterate(v, [s], fr, e, ast.Name(id="__yf", ctx=ast.Store()),
                                      lambda z: (fr.on_yield(z.env[(fr.fid, "__yf")], z), []))
                out += [(NONE, x) for x in ex]
            else:
                out.append((NONE, s))
        return out

    # comprehensions --------------------------------------------------------
    def comp(self, e, st, fr, kind):
        """[elt for t in it if c] -> ('comp', kind, ((conds, elt), ...), iterable)"""
        if len(e.generators) != 1:
            return self.comp_nested(e, st, fr, kind)
        g = e.generators[0]
        out = []
        for itv, s in self.eval(g.iter, st, fr):
            itv, s = self.own_iter(itv, s, fr, node=e)
            alts = []
            saved_facts = s.facts

            def body(x):
                cur, skip = [x], []
                for c in g.ifs:
                    nx = []
                    for y in cur:
                        t, f = self.cond(c, y, fr)
                        nx += t
                        skip += f
                    cur = nx
                res = list(skip)
                for y in cur:
                    if kind == "dict":
                        for kv, z in self.eval(e.key, y, fr):
                            for vv, z2 in self.eval(e.value, z, fr):
                                alts.append((self._delta(saved_facts, z2), ("tuple", (kv, vv)), z2))
                                res.append(z2)
                    else:
                        for v, z in self.eval(e.elt, y, fr):
                            if v[0] == "coro" :
                                alts.append((self._delta(saved_facts, z), v, z))
                            else:
                                alts.append((self._delta(saved_facts, z), v, z))
                            res.append(z)
                return res, []
            # exact containers: build an exact container
            src = itv
            exact = None
            if itv[0] == "tuple" and len(itv[1]) <= 8 and not g.ifs:
                exact = list(itv[1])
            elif itv[0] == "obj" and itv[2] in ("list", "tuple") and not g.ifs:
                its = s.heap.get((itv, "#c"))
                if its is not None and len(its) <= 8 and all(i[0] == "v" for i in its):
                    exact = [i[1] for i in its]
            if self.mon.exact and exact is None:
                exact = self.exact_items(itv, s)
                if exact is None:       # in one of the possible orders
                    exact = self.setlike(itv, s)
                    exact = exact and sorted(exact, key=repr)
                if exact is not None and len(exact) > 40:
                    exact = None
                if exact is not None and g.ifs:
                    # the elements that pass, if that is known for all
                    keep = []
                    for a in exact:
                        ok = True
                        ys = self.bind(g.target, a, s.copy(), fr)
                        for c in g.ifs:
                            t, f = self.cond(c, ys[0], fr)
                            if t and f or len(ys) != 1:
                                exact = None
                                break
                            if f:
                                ok = False
                                break
                        if exact is None:
                            break
                        if ok:
                            keep.append(a)
                    if exact is not None:
                        exact = keep
            if exact is not None:
                cur = [([], s)]
                for a in exact:
                    nx = []
                    for vs, y in cur:
                        for y1 in self.bind(g.target, a, y.copy(), fr):
                            if kind == "dict":
                                for k, y2 in self.eval(e.key, y1, fr):
                                    for v, z in self.eval(e.value, y2, fr):
                                        nx.append((vs + [(k, v)], z))
                                continue
                            for v, z in self.eval(e.elt, y1, fr):
                                nx.append((vs + [v], z))
                    cur = nx
                for vs, y in cur:
                    if kind == "dict":
                        out.append(self.mkdict(vs, y, fr, e))
                        continue
                    out.append(self.mkcont("list" if kind in ("list", "gen") else kind,
                                           vs, y, fr, e))
                continue
            keys_before = {k for k in s.env if k[0] == fr.fid}
            ends, _ = self.iterate(itv, [s], fr, g.iter, g.target, body,
                                   is_async=bool(g.is_async))
            uniq = tuple(dict.fromkeys((c, v) for c, v, _ in alts))
            val = None
            if len(uniq) == 1 and not uniq[0][0] and uniq[0][1][0] == "elem" \
                    and uniq[0][1][1] == itv and kind in ("list", "gen", "set"):
                val = ("conv", "list" if kind == "gen" else kind, itv)
            if val is None:
                val = ("comp", kind, uniq, itv)
            for x in ends:
                x = x.copy()
                for k in [k for k in x.env if k[0] == fr.fid and k not in keys_before]:
                    del x.env[k]
                out.append((val, x))
        return dedupe_pairs(out)

    def _delta(self, before, st):
        return tuple(sorted(((a, v) for a, v in st.facts.items()
                             if before.get(a) != v), key=repr))

    def comp_nested(self, e, st, fr, kind):
        alts = []
        before = st.facts

        def body(s):
            res = []
            elt = e.elt if not isinstance(e, ast.DictComp) else ast.Tuple(
                elts=[e.key, e.value], ctx=ast.Load())
            for v, z in self.eval(elt, s, fr):
                alts.append((self._delta(before, z), v))
                res.append(z)
            return res
        keys_before = {k for k in st.env if k[0] == fr.fid}
        ends = self.comp_loop(e.generators, 0, [st], fr, e, body)
        src = None
        for v, _ in self.eval(e.generators[0].iter, st, fr)[:1]:
            src = v
        val = ("comp", kind, tuple(dict.fromkeys(alts)), src or NONE)
        out = []
        for x in ends:
            x = x.copy()
            for k in [k for k in x.env if k[0] == fr.fid and k not in keys_before]:
                del x.env[k]
            out.append((val, x))
        return out

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, "set")

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, "gen")

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, "dict")

    # --------------------------------------------------------------- calls
    def eval_args(self, e, st, fr):
        """-> [((pos, kw), state)]"""
        cur = self.eval_list(e.args, st, fr)
        out = []
        for vals, s in cur:
            acc = [({}, s)]
            for kw in e.keywords:
                nx = []
                for d, s1 in acc:
                    for v, s2 in self.eval(kw.value, s1, fr):
                        d2 = dict(d)
                        if kw.arg is None:
                            ex = self.expand_kw(v, s2)
                            if ex is None:
                                d2["**"] = v
                            else:
                                d2.update(ex)
                        else:
                            d2[kw.arg] = v
                        nx.append((d2, s2))
                acc = nx
            for d, s1 in acc:
                pos = []
                for v in vals:
                    if v[0] == "star":
                        f = self.flatten_star([v], s1)
                        if f is None:
                            pos.append(v)
                        else:
                            pos += f
                    else:
                        pos.append(v)
                out.append(((pos, d), s1))
        return out

    def expand_kw(self, v, st):
        if v[0] == "kwdict":
            return {k: x for k, x in v[1]}
        if v[0] == "obj" and v[2] == "dict" and (v, "#k") in st.heap:
            kk = st.heap[(v, "#k")]
            its = st.heap.get((v, "#c"), ())
            if all(is_str(k) for k, _ in kk) and all(i[0] == "v" for i in its):
                return {k[2]: x for k, x in kk}
        return None

    def is_log(self, e, fr):
        """log.info(...) and friends"""
        if not (isinstance(e.func, ast.Attribute) and e.func.attr in M.LOG_METHODS):
            return False
        b = e.func.value
        if isinstance(b, ast.Subscript):
            return isinstance(b.slice, ast.Constant) and b.slice.value == "log"
        d = dotted(b)
        if d is None:
            return isinstance(b, ast.Call) and self.is_log(b, fr)
        return d.split(".")[-1] in ("log", "logger", "_log")

    def e_Call(self, e, st, fr):
        if self.is_log(e, fr):
            if getattr(self.mon, "logs", False):
                out = []
                for (pos, kw), x in self.eval_args(e, st, fr):
                    self.emit(Event("log", e.func.attr, tuple(pos), kw, e, fr, None), x)
                    out += self.eval(e.func.value, x, fr) if e.func.attr in (
                        "bind", "new", "unbind") else [(NONE, x)]
                return out
            simple = not any(isinstance(n, (ast.Await, ast.NamedExpr, ast.Call))
                             for a in list(e.args) + [k.value for k in e.keywords]
                             for n in ast.walk(a))
            if e.func.attr in ("bind", "new", "unbind"):
                return self.eval(e.func.value, st, fr)
            if simple:
                return [(NONE, st)]
            return [(NONE, s) for _, s in self.eval_args(e, st, fr)]
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            me = None
            f = fr
            if fr.func is not None:
                ps = fr.func.params()
                if ps:
                    me = st.env.get((fr.fid, ps[0]))
            if me is not None and fr.func.cls is not None:
                return [(("super", me, fr.func.cls.qual), st)]
        if (isinstance(e.func, ast.Name) and e.func.id in ("any", "all")
                and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp))):
            t, f = self.anyall(e.func.id, e.args[0], st, fr)
            return dedupe_pairs([(TRUE, s) for s in t] + [(FALSE, s) for s in f])
        if (isinstance(e.func, ast.Name) and e.func.id == "next" and e.args
                and isinstance(e.args[0], ast.GeneratorExp)):
            return self.next_genexp(e, st, fr)
        out = []
        for fv, s in self.eval(e.func, st, fr):
            for (pos, kw), s1 in self.eval_args(e, s, fr):
                out += self.call(fv, pos, kw, s1, e, fr)
        return dedupe_pairs(out)

    def next_genexp(self, e, st, fr):
        g = e.args[0]
        hits = []

        def body(s):
            vs = self.eval(g.elt, s, fr)
            hits.extend(vs)
            return []
        rest = self.comp_loop(g.generators, 0, [st], fr, g, body)
        out = list(hits)
        for s in dedupe(rest):
            if len(e.args) > 1:
                out += self.eval(e.args[1], s, fr)
            else:
                self.throw(("exc", "StopIteration", True), s)
        return dedupe_pairs(out)

    entry = entry_frame = None

    def is_opaque(self, f, fr=None):
        if fr is not None and fr is self.entry_frame and f is self.entry:
            return False
        return f.qual in self.opaque or f.name in self.opaque or (
            f.cls is not None and f.cls.name + "." + f.name in self.opaque)

    def should_inline(self, f, fr, closure=None):
        if self.is_opaque(f, fr):
            return False
        if fr.depth > self.MAX_DEPTH or self.stack.count((f.uid, closure)) > (4 if self.mon.exact else 0):
            return False
        if self.inline_pred is not None and not self.inline_pred(f):
            return False
        return True

    def call(self, fv, pos, kw, st, node, fr):
        k = fv[0]
        if k == "func":
            return self.call_func(fv, pos, kw, st, node, fr)
        if k == "class":
            return self.instantiate(fv, pos, kw, st, node, fr)
        if k == "excclass":
            return [(("exc", fv[1], True), st)]
        if k == "bound":
            return self.call_method(fv[1], fv[2], pos, kw, st, node, fr)
        c = self.cls_of(fv, st)
        if c is not None:
            m = self.p.find_method(c, "__call__")
            if m is not None:
                return self.call(("func", m.uid, None, fv), pos, kw, st, node, fr)
        if k == "attr":
            return self.call_method(fv[1], fv[2], pos, kw, st, node, fr)
        if k == "sym" and fv[2] is None and fv[1].rpartition(".")[0] in self.p.modules:
            k = "ext"       # a module's variable
        if k == "ext":
            return self.call_ext(fv[1], pos, kw, st, node, fr)
        if k == "partial":
            return self.call(fv[1], list(fv[2]) + pos, {**dict(fv[3]), **kw}, st, node, fr)
        st = st.copy()
        res = self.app(fr, node, "call", (fv,) + tuple(pos), kw)
        self.emit(Event("call", "call", (fv,) + tuple(pos), kw, node, fr, res), st)
        self.throw(("exc", "Exception", False), st)
        return [(res, st)]

    def call_func(self, fv, pos, kw, st, node, fr):
        f = self.p.funcs[fv[1]]
        args = list(pos)
        if fv[3] is not None:
            args = [fv[3]] + args
        if f.qual in self.subst:
            r = self.subst[f.qual](self, fv, args, kw, st, node, fr)
            if r is not None:
                return r
        if f.qual.endswith("Repository.find_revisions") and len(args) == 2 and not kw and \
                args[1] in SPECS and not self.mon.exact and not f.is_async:
            st = st.copy()
            st.env[0, "$repo"] = args[0]
            return self.eval(SPECS[args[1]], st, fr)
        if not self.should_inline(f, fr, fv[2]) and (
                self.is_opaque(f, fr) or not (f.is_gen or f.is_async) or
                self.inline_pred is not None and not self.inline_pred(f)):
            return self.opaque_call(f, args, kw, st, node, fr)
        fid = self.new_fid(fr, node, f, fv[2])
        if self.mon.exact and (f.is_async or f.is_gen):
            n, used = 0, {x[0] for x in st.env}     # others of the same place that did not run yet
            while fid in used and n < 60:
                n += 1
                fid = self.new_fid(fr, node, f, fv[2], n)
        st = st.copy()
        for key in [x for x in st.env if x[0] == fid]:
            del st.env[key]
        sts = self.bind_params(f, fid, args, kw, st, fr, fv[2], node)
        if sts is None:
            self.throw(("exc", "TypeError", True), st)
            return []
        out = []
        for s in sts:
            if f.is_gen and self.has_deco(f, "contextmanager", "asynccontextmanager"):
                out.append((("cm", f.uid, fid, fv[2]), s))
            elif f.is_gen:
                out.append((("gen", f.uid, fid, fv[2]), s))
            elif f.is_async:
                out.append((("coro", f.uid, fid, fv[2]), s))
            else:
                out += self.run_body(f, fid, fv[2], s, fr)
        return out

    # -- external programs ------------------------------------------------
    @staticmethod
    def is_proc(t):
        while t[0] == "typed":
            t = t[1]
        return t[0] == "app" and t[1].startswith("proc:")

    def proc_end(self, p, st, fr, node):
        """The program has ended: one state for every kind of exit status."""
        if (p, "returncode") in st.heap:
            return [(st.heap[(p, "returncode")], st)]
        out = []
        for c in self.mon.proc_status:
            s = st.copy()
            s.heap[(p, "returncode")] = C(c)
            self.emit(Event("status", "", (p, C(c)), {}, node, fr), s)
            out.append((C(c), s))
        return out

    def opaque_call(self, f, args, kw, st, node, fr):
        st = st.copy()
        res = self.app(fr, node, "repo:" + f.qual, tuple(args), kw, pure=f.name.startswith("find"))
        self.emit(Event("call", "repo:" + f.qual, tuple(args), kw, node, fr, res), st)
        self.throw(("exc", "Exception", False), st)
        return [(res, st)]

    def bind_params(self, f, fid, args, kw, st, fr, closure, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        env = {}
        rest = list(args)
        star = None
        for n in names:
            if rest and rest[0][0] == "star":
                star = rest[0][1]
                break
            if rest:
                env[n] = rest.pop(0)
        unb = [n for n in names if n not in env]
        if star is not None:
            for i, n in enumerate(unb):
                if n not in kw:
                    env[n] = ("typed", ("idx", star, C(i)), self.p.param_type(f, n)) \
                        if self.p.param_type(f, n) else ("idx", star, C(i))
            if a.vararg:
                env[a.vararg.arg] = star if len(unb) == 0 else ("slice", star, C(len(unb)), NONE)
        elif a.vararg:
            if any(r[0] == "star" for r in rest):
                if len(rest) == 1:
                    env[a.vararg.arg] = rest[0][1]
                else:
                    o, st = self.mkcont("tuple", rest, st, fr, node)
                    env[a.vararg.arg] = o
            else:
                env[a.vararg.arg] = ("tuple", tuple(rest))
        elif rest:
            return None
        dyn = kw.pop("**", None)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw and n not in env:
                env[n] = kw.pop(n)
        if a.kwarg:
            if dyn is not None:
                env[a.kwarg.arg] = dyn if not kw else ("app", "kwmerge", (dyn,), tuple(sorted(kw.items())), 0)
            else:
                env[a.kwarg.arg] = ("kwdict", tuple(sorted(kw.items())))
        elif kw:
            return None
        # defaults
        defaults = {}
        pn = a.posonlyargs + a.args
        for x, d in zip(pn[len(pn) - len(a.defaults):], a.defaults):
            defaults[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        missing = [n for n in names + [x.arg for x in a.kwonlyargs] if n not in env]
        for n in missing:
            if n in defaults:
                self.muted += 1
                dfr = Fr(None, -2 - f.uid, closure, f.module, fr)
                dfr.depth = fr.depth
                try:
                    vs = self.eval(defaults[n], st, dfr)
                finally:
                    self.muted -= 1
                env[n] = vs[0][0] if vs else NONE
                if vs and vs[0][0][0] == "obj":
                    st = vs[0][1].copy()
            elif dyn is not None:
                env[n] = ("idx", dyn, C(n))
            elif star is not None:
                env[n] = ("idx", star, C(n))
            else:
                return None
        # attach declared parameter types to values of unknown type
        for n, v in list(env.items()):
            if v[0] in ("app", "attr", "idx", "elem", "loop") and self.typeof(v, st) is None:
                ty = self.p.param_type(f, n)
                if ty and ty[0] in ("cls", "list", "dict"):
                    env[n] = ("typed", v, ty)
        for n, v in env.items():
            st.env[(fid, n)] = v
        return [st]

    def run_body(self, f, fid, closure, st, caller, on_yield=None):
        fr = Fr(f, fid, closure, f.module, caller)
        if on_yield is not None:
            fr.on_yield = on_yield
        if fr.depth > self.MAX_DEPTH + 10:
            raise Budget("call depth")
        self.funcs_seen.add(f.qual)
        self.stack.append((f.uid, closure))
        entry = {k[0] for k in st.heap}
        st = st.copy()
        self.emit(Event("enter", f.qual, tuple(
            st.env.get((fid, n), NONE) for n in f.params()), None, f.node, fr), st)
        saved = self.exc
        self.exc = mine = []
        o = Flow()
        if f.is_lambda:
            rets = self.eval(f.node.body, st, fr)
        else:
            sts = self.exec_block(f.node.body, [st], o, fr)
            rets = o.ret + [(NONE, s) for s in sts]
        self.exc = saved
        self.stack.pop()
        out = []
        if f.name == "__init__":
            rets = [(NONE, s) for _, s in rets]
        for v, s in dedupe_pairs(rets):
            s = s.copy()
            self.emit(Event("exit", f.qual, (v,), None, f.node, fr, v, "return"), s)
            self.gc(f, fid, v, s, entry)
            if f.node.returns is not None if not f.is_lambda else False:
                if v[0] in ("app", "attr", "idx", "elem") and self.typeof(v, s) is None:
                    ty = self.p.ret_type(f)
                    if ty and ty[0] in ("cls", "list", "dict"):
                        v = ("typed", v, ty)
            out.append((v, s))
        for e, s in dedupe_pairs(mine):
            s = s.copy()
            self.emit(Event("exit", f.qual, (e,), None, f.node, fr, e, "raise"), s)
            self.gc(f, fid, e, s, entry)
            self.exc.append((e, s))
        if len(self.exc) > self.SOFT:
            self.exc[:] = self.bound_pairs(dedupe_pairs(self.exc), caller, f.node)
        return self.bound_pairs(dedupe_pairs(out), caller, f.node)

    def bound_pairs(self, pairs, fr, node):
        if len(pairs) <= self.SOFT:
            return pairs
        groups = {}
        for v, s in pairs:
            groups.setdefault((v, s.mon, s.pend), []).append(s)
        return [(v, self.merge_states(g, fr, node) if len(g) > 1 else g[0])
                for (v, _, _), g in groups.items()]

    def within(self, a, fid):
        while a > 0:
            if a == fid:
                return True
            a = self.fparent.get(a, 0)
        return False

    def gc(self, f, fid, v, st, entry):
        """Forget the locals of a finished call and what only they reached."""
        if not (f.captures and (_has_closure(v) or any(
                _has_closure(x) for k, x in st.heap.items() if k[0][0] == "obj"))):
            for k in [k for k in st.env if k[0] == fid]:
                del st.env[k]
        fresh = {k[0] for k in st.heap if k[0][0] == "obj" and k[0] not in entry
                 and self.within(self.ofid.get(k[0][1], 0), fid)}
        if not fresh:
            return
        live, todo, seen = set(), [], set()

        def walk(t):
            if isinstance(t, tuple) or isinstance(t, frozenset):
                if t and isinstance(t, tuple) and t[0] == "obj":
                    if t in fresh:
                        if t not in live:
                            live.add(t)
                            todo.append(t)
                        return
                if id(t) in seen:
                    return
                seen.add(id(t))
                for x in t:
                    if isinstance(x, (tuple, frozenset)):
                        walk(x)
        walk(v)
        for x in st.env.values():
            walk(x)
        walk(st.mon if isinstance(st.mon, (tuple, frozenset)) else ())
        walk(st.pend)
        byobj = {}
        for k, x in st.heap.items():
            if k[0] in fresh:
                byobj.setdefault(k[0], []).append((k[1], x))
            else:
                walk(k)
                walk(x)
        while todo:
            for a, x in byobj.get(todo.pop(), ()):
                walk(a)
                walk(x)
        for k in [k for k in st.heap if k[0] in fresh and k[0] not in live]:
            del st.heap[k]

    def instantiate(self, fv, pos, kw, st, node, fr):
        c = self.p.class_by_qual[fv[1]]
        anc = M.exc_ancestors(c.qual, self.p) if self.p.ext_bases(c) else []
        if "BaseException" in anc and self._is_exc_class(c):
            return [(("exc", c.qual, True), st)]
        if c.is_enum:
            if pos and is_c(pos[0]):
                for n, vnode in c.attrs.items():
                    if isinstance(vnode, ast.Constant) and vnode.value == pos[0][2]:
                        return [(("enum", c.qual, n), st)]
            return [(("typed", ("app", c.qual, tuple(pos), (), 0), ("cls", c.qual)), st)]
        st = st.copy()
        o = self.obj(st, fr, node, c.qual)
        self.emit(Event("new", c.qual, (o,) + tuple(pos), kw, node, fr, o), st)
        init = self.p.find_method(c, "__init__")
        if init is not None:
            out = []
            for v, s in self.call_func(("func", init.uid, None, o), pos, kw, st, node, fr):
                out.append((o, s))
            return out
        if c.is_dataclass:
            fields = []
            for k in reversed(self.p.mro(c)):
                if k.is_dataclass:
                    for n, d in k.fields:
                        fields = [x for x in fields if x[0] != n] + [(n, d, k)]
            vals = list(pos)
            for n, d, k in fields:
                if vals:
                    v = vals.pop(0)
                elif n in kw:
                    v = kw[n]
                elif d is not None:
                    v = self._eval_static(k.module, d, k.qual + "." + n)
                else:
                    v = ("attr", o, n)
                st.heap[(o, n)] = v
        return [(o, st)]

    def _is_exc_class(self, c):
        for b in self.p.ext_bases(c):
            n = M.canon_exc(b)
            x = getattr(__import__("builtins"), n, None)
            if isinstance(x, type) and issubclass(x, BaseException):
                return True
            if n in M.EXC_BASE:
                return True
        return False

    # external calls --------------------------------------------------------
    def pure_raise(self, st, fr, cls="Exception"):
        if fr.try_depth > 0:
            self.throw(("exc", cls, False), st)

    def isinstance_term(self, v, cv, st):
        if cv[0] == "tuple":
            ts = [self.isinstance_term(v, x, st) for x in cv[1]]
            rs = [self.truth(t, st) for t in ts]
            if any(r is True for r in rs):
                return TRUE
            if all(r is False for r in rs):
                return FALSE
            return ("app", "isinstance", (v, cv), (), 0)
        c = self.cls_of(v, st) if v[0] not in ("exc",) else None
        if self.mon.exact and c is not None and v[0] in ("idx", "elem", "app"):
            if cv[0] == "class":
                return C(cv[1] in [k.qual for k in self.p.mro(c)])
            if cv[0] == "ext" and cv[1] in ("str", "list", "int", "dict", "set", "tuple"):
                return FALSE
        if v[0] == "exc":
            m = self.match_exc(v, cv[1] if len(cv) > 1 else "Exception")
            if m == "yes":
                return TRUE
            if m == "no":
                return FALSE
            return ("app", "isinstance", (v, cv), (), 0)
        if c is not None and cv[0] == "class":
            quals = [k.qual for k in self.p.mro(c)]
            if cv[1] in quals:
                # declared types may be Optional
                if v[0] in ("obj", "enum"):
                    return TRUE
            elif v[0] in ("obj", "enum"):
                return FALSE
        if v[0] == "c" and cv[0] == "ext":
            t = {"str": str, "int": int, "bytes": bytes, "float": float, "bool": bool,
                 "list": list, "dict": dict, "set": set, "tuple": tuple}.get(cv[1])
            if t is not None:
                return C(isinstance(v[2], t))
        if v[0] == "c" and cv[0] in ("class", "excclass"):
            return FALSE
        if cv[0] == "excclass" and (v[0] in ("tuple", "str") or v[0] == "obj" and v[2] in (
                "list", "dict", "set", "tuple", "defaultdict")):
            return FALSE
        if v[0] in ("str",) and cv == ("ext", "str"):
            return TRUE
        kind = v[2] if v[0] == "obj" and v[2] in ("list", "dict", "set") else "tuple" \
            if v[0] == "tuple" else v[1] if v[0] in ("conv", "comp") and v[1] in (
                "list", "set", "dict") else None
        if kind == "sorted":
            kind = "list"
        if kind and cv[0] == "class":
            return FALSE
        if kind and cv[0] == "ext" and cv[1] in ("str", "int", "float", "bytes", "list", "dict", "set",
                                                 "tuple", "bool"):
            return C(cv[1] == kind)
        if self.mon.exact and cv == ("ext", "list") and v[0] == "slice":
            return TRUE
        if self.mon.exact and v[0] == "slice" and (cv[0] == "class" or cv == ("ext", "str")):
            return FALSE
        return ("app", "isinstance", (v, cv), (), 0)

    def one_of(self, t, st):
        """The strings t is known to be one of on this path, or None."""
        for a, v in st.facts.items():
            if v and a[0] == "cmp" and a[1] == "==" and a[2] == t and is_str(a[3]):
                return [a[3]]
        for a, v in st.facts.items():
            if not v or a[0] != "cmp" or a[1] != "in" or a[2] != t:
                continue
            c = a[3]
            its = st.heap.get((c, "#c")) if c[0] == "obj" else None
            if its is not None and c[2] in ("list", "set", "tuple") and \
                    all(i[0] == "v" and is_str(i[1]) for i in its):
                return [i[1] for i in its]
            if c[0] == "tuple" and all(is_str(x) for x in c[1]):
                return list(c[1])
            if is_c(c) and isinstance(c[2], (tuple, frozenset)) and \
                    all(isinstance(x, str) for x in c[2]):
                return [C(x) for x in sorted(c[2])]
            if is_str(c) and len(c[2]) <= 12:
                return [C(x) for x in c[2]]
        return None

    def call_ext(self, name, pos, kw, st, node, fr):
        n = name[9:] if name.startswith("builtins.") else name
        A = pos
        if self.mon.ext and n in self.mon.ext:
            st = st.copy()
            r = self.mon.ext[n](self, A, kw, st)
            if isinstance(r, list):
                return r
            if r is not None:
                return [(r, st)]
        # ---- builtins with a direct meaning
        if n == "type" and len(A) == 1 and A[0][0] == "obj" and A[0][2] in self.p.class_by_qual:
            return [(("class", A[0][2]), st)]
        if n == "isinstance" and len(A) == 2:
            return [(self.isinstance_term(A[0], A[1], st), st)]
        if n == "getattr" and len(A) >= 2 and not is_str(A[1]):
            # a name with one unknown part that is known to be one of a few
            t = [x for x in (A[1][1] if A[1][0] == "str" else (A[1],)) if not is_c(x)]
            names = self.one_of(t[0], st) if len(t) == 1 else None
            if names is not None:
                out = []
                for c in names:
                    s2 = st.copy()
                    s2.facts[("cmp", "==", t[0], c)] = True
                    if self.mon.branches:
                        self.emit(Event("fact", "", (("cmp", "==", t[0], c), TRUE), {},
                                        node, fr), s2)
                    nm = strcat(tuple(c if x == t[0] else x for x in A[1][1])) \
                        if A[1][0] == "str" else c
                    out += self.call_ext(name, [A[0], nm] + list(A[2:]), kw, s2, node, fr)
                return out
        if n == "getattr" and len(A) >= 2 and is_str(A[1]):
            out = []
            if A[0] == NONE and len(A) == 3:
                return [(A[2], st)]
            t = self.truth(("cmp", "is", A[0], NONE), st)
            if len(A) == 3 and t is None and A[0][0] in ("attr", "idx", "app", "elem", "loop", "typed"):
                tr, fa = self.branch(("cmp", "is", A[0], NONE), st, fr, node)
                out += [(A[2], s) for s in tr]
                for s in fa:
                    out += self.get_attr(A[0], A[1][2], s, fr, node)
                return out
            return self.get_attr(A[0], A[1][2], st, fr, node)
        if n == "setattr" and len(A) == 3 and is_str(A[1]):
            st = st.copy()
            self.set_attr(A[0], A[1][2], A[2], st, fr, node)
            return [(NONE, st)]
        if n == "zip" and self.mon.exact and A and not kw:
            its = []
            for a in A:
                a, st = self.own_iter(a, st, fr, node)
                its.append(self.exact_items(a, st))
            if None not in its:
                return [self.mkcont("list", [("tuple", x) for x in zip(*its)], st, fr, node)]
        if n in ("filter", "map") and self.mon.exact and len(A) == 2 and not kw and (
                A[0][0] in ("func", "ext", "class", "bound") or A[0] == NONE):
            src, st = self.own_iter(A[1], st, fr, node)
            its = self.exact_items(src, st)
            if its is not None and len(its) <= 40:
                sts = [((), st)]
                for x in its:
                    nx = []
                    for acc, s in sts:
                        for v, s1 in [(x, s)] if A[0] == NONE else self.call(A[0], [x], {}, s, node, fr):
                            if n == "map":
                                nx.append((acc + (v,), s1))
                                continue
                            t, f = self.branch(v, s1, fr, node)
                            nx += [(acc + (x,), z) for z in t] + [(acc, z) for z in f]
                    sts = nx
                    if len(sts) > 64:
                        break
                else:
                    return [self.mkcont("list", list(acc), s, fr, node) for acc, s in sts]
        if n in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "enumerate"):
            if self.mon.exact and A:
                a, st = self.own_iter(A[0], st, fr, node)
                A = pos = [a, *A[1:]]
            if n == "iter" and A and A[0][0] == "gen":
                return [(A[0], st)]
            if n == "iter" and len(A) == 2:
                return [(("iterfn", A[0], A[1]), st)]
            if not A:
                return [self.mkcont("list" if n == "list" else n if n in ("set", "tuple") else "set",
                                    [], st, fr, node)]
            v = A[0]
            if v[0] == "gen":
                st = st.copy()
                o = self.obj(st, fr, node, "list" if n != "set" else "set")
                st.heap[(o, "#c")] = ()
                acc = []

                def on(val, s):
                    s = s.copy()
                    its = s.heap.get((o, "#c"), ())
                    if ("v", val) not in its:
                        s.heap[(o, "#c")] = its + (("v", val),)
                    return [s]
                return [(o, s) for _, s in self.drain(v, st, fr, on)]
            if v[0] == "obj" and v[2] in ("list", "set", "tuple", "dict", "defaultdict") and (v, "#c") in st.heap \
                    and n in ("list", "set", "tuple", "frozenset"):
                its = st.heap[(v, "#c")]
                st = st.copy()
                o = self.obj(st, fr, node, "set" if n == "frozenset" else n)
                st.heap[(o, "#c")] = its
                return [(o, st)]
            if self.mon.exact and is_str(v) and n in ("list", "set", "tuple", "sorted"):
                v = ("tuple", tuple(C(x) for x in (sorted(v[2]) if n != "list" else v[2])))
                n = "list" if n == "sorted" else n
            if v[0] == "tuple" and n in ("list", "set"):
                return [self.mkcont(n, list(v[1]), st, fr, node)]
            if v[0] == "tuple" and n == "tuple":
                return [(v, st)]
            if v[0] == "tuple" and n == "reversed":
                return [(("tuple", tuple(reversed(v[1]))), st)]
            if v[0] == "conv" and v[1] == "reversed" and n == "reversed":
                return [(v[2], st)]
            if n in ("set", "list") and v[0] not in ("conv",) and n == "set":
                # a fresh mutable set holding everything v holds
                st = st.copy()
                o = self.obj(st, fr, node, "set")
                st.heap[(o, "#c")] = (("all", v),)
                return [(o, st)]
            if n == "sorted" and self.mon.exact:
                r = self.exact_sorted(v, kw, st, node, fr)
                if r is not None:
                    return [self.mkcont("list", r, st, fr, node)]
            if kw and n == "sorted":
                self.sorts[("conv", "sorted", v)] = kw
                return [(("conv", "sorted", v), st)]
            return [(("conv", n, v), st)]
        if n == "dict" and self.mon.exact and len(A) == 1 and not kw:
            its = self.exact_items(A[0], st)
            if its is not None and all(x[0] == "tuple" and len(x[1]) == 2 for x in its):
                return [self.mkdict([x[1] for x in its], st, fr, node)]
        if n == "dict" or n in ("collections.OrderedDict",):
            ps = [(None, A[0])] if A and A[0][0] != "star" else []
            ps += [(C(k), v) for k, v in kw.items() if k != "**"]
            if "**" in kw:
                ps.append((None, kw["**"]))
            return [self.mkdict(ps, st, fr, node)]
        if n == "collections.defaultdict":
            st = st.copy()
            o = self.obj(st, fr, node, "defaultdict")
            st.heap[(o, "#k")] = ()
            st.heap[(o, "#c")] = ()
            if A:
                st.heap[(o, "#d")] = A[0]
            return [(o, st)]
        if n == "str" and len(A) == 1:
            if is_c(A[0]):
                return [(C(str(A[0][2])), st)]
            if A[0][0] == "enum":
                c = self.p.class_by_qual[A[0][1]]
                m = self.p.find_method(c, "__str__")
                if m:
                    return self.call_func(("func", m.uid, None, A[0]), [], {}, st, node, fr)
            return [(A[0], st)]
        if n in ("bool",) and len(A) == 1:
            t = self.truth(A[0], st)
            return [(C(t) if t is not None else ("app", "bool", (A[0],), (), 0), st)]
        if n == "int" and len(A) == 1:
            if is_c(A[0]):
                try:
                    return [(C(int(A[0][2])), st)]
                except Exception:
                    pass
            if A[0][0] == "not":
                t = self.truth(A[0], st)
                if t is not None:
                    return [(C(int(t)), st)]
        if n == "len" and len(A) == 1:
            v = A[0]
            if v[0] == "tuple":
                return [(C(len(v[1])), st)]
            if v[0] == "c" and isinstance(v[2], (str, bytes)):
                return [(C(len(v[2])), st)]
            if self.mon.exact:
                its = self.exact_items(v, st)
                if its is None and v[0] == "obj":
                    its = self.exact_set(v, st)
                if its is not None:
                    return [(C(len(its)), st)]
            while v[0] == "conv" and v[1] in ("list", "tuple", "sorted", "reversed"):
                v = v[2]
            return [(("app", "len", (v,), (), 0), st)]
        if self.mon.exact and n in ("min", "max") and A and (len(A) == 1 or not kw):
            if len(A) > 1:
                its = list(A)
            else:
                its = self.exact_sorted(A[0], {k: v for k, v in kw.items() if k != "default"},
                                        st, node, fr)
            if its == [] and "default" in kw:
                return [(kw["default"], st)]
            if its == []:
                self.throw(("exc", "ValueError", True), st)
                return []
            if its and len(A) == 1 and kw:
                # the first of the greatest
                if n == "max":
                    its = self.exact_sorted(A[0], dict(kw, reverse=TRUE), st, node, fr)
                return [(its[0], st)]
            if its and all(is_c(x) and isinstance(x[2], (int, float)) for x in its):
                return [(C((min if n == "min" else max)(x[2] for x in its)), st)]
            if its and is_c(its[0]) and len(A) == 1:
                return [(its[0] if n == "min" else its[-1], st)]
        if self.mon.exact and n == "sum" and len(A) == 1 and not kw:
            its = self.exact_items(A[0], st)
            if its is not None and all(is_c(x) and isinstance(x[2], (int, float)) for x in its):
                return [(C(sum(x[2] for x in its)), st)]
        if self.mon.exact and n in ("re.fullmatch", "re.match", "re.search") and len(A) == 2 and \
                is_str(A[0]) and is_str(A[1]):
            import re
            try:
                r = getattr(re, n[3:])(A[0][2], A[1][2])
                return [(NONE if r is None else ("tuple", (C(r.group(0)),) + tuple(
                    C(x) for x in r.groups())), st)]
            except re.error:
                pass
        if self.mon.exact and n in ("re.split", "re.findall") and len(A) == 2 and not kw and \
                is_str(A[0]) and is_str(A[1]):
            import re
            try:
                r = getattr(re, n[3:])(A[0][2], A[1][2])
            except re.error:
                r = None
            if r is not None:
                return [self.mkcont("list", [C(x) if not isinstance(x, tuple) else
                                             ("tuple", tuple(C(y) for y in x)) for x in r],
                                    st, fr, node)]
        if n == "filter" and len(A) == 2 and A[0][0] == "func":
            out = []
            el = ("elem", A[1], 0)
            alts = []
            s0 = st
            for v, s in self.call(A[0], [el], {}, st, node, fr):
                t, f = self.branch(v, s, fr, node)
                for x in t:
                    alts.append((self._delta(s0.facts, x), el))
            return [(("comp", "gen", tuple(dict.fromkeys(alts)), A[1]), st)]
        if n == "map" and len(A) == 2 and A[0][0] == "func":
            el = ("elem", A[1], 0)
            alts = []
            s0 = st
            ends = []
            for v, s in self.call(A[0], [el], {}, st, node, fr):
                alts.append((self._delta(s0.facts, s), v))
                ends.append(s)
            val = ("comp", "gen", tuple(dict.fromkeys(alts)), A[1])
            return [(val, s) for s in dedupe(ends)] or [(val, st)]
        if n == "next" and A:
            v = A[0]
            if v[0] == "gen":
                # first next(): run the generator to its end, see DESIGN.md
                mark = (v, "#started")
                if mark in st.heap:
                    return [(self.app(fr, node, "next", A), st)]
                st = st.copy()
                st.heap[mark] = TRUE
                res = []
                for _, s in self.drain(v, st, fr, lambda val, s1: [s1]):
                    res.append((self.app(fr, node, "next", A), s))
                return dedupe_pairs(res)
            if self.mon.exact and v[0] == "conv" and v[1] == "iter" and isinstance(node, ast.Call) and \
                    node.args and isinstance(node.args[0], ast.Call):
                its = [("v", x) for x in v[2][1]] if v[2][0] == "tuple" else \
                    st.heap.get((v[2], "#c")) if v[2][0] == "obj" else None
                if its and all(i[0] == "v" for i in its) and (
                        len(its) == 1 or v[2][0] == "tuple" or v[2][2] in ("list", "dict")):
                    return [(its[0][1], st)]
            if fr.try_depth > 0:
                self.throw(("exc", "StopIteration", True), st)
            st = st.copy()
            return [(self.app(fr, node, "next", A), st)]
        if n == "functools.partial" and A:
            return [(("partial", A[0], tuple(A[1:]), tuple(sorted(kw.items()))), st)]
        if n in ("pathlib.Path", "pathlib.PurePath"):
            if not A:
                return [(("sym", "cwd", ("ext", "pathlib.Path")), st)]
            v = A[0]
            if len(A) == 1:
                if self.is_path(v, st):
                    return [(v, st)]
                return [(("typed", v, ("ext", "pathlib.Path")), st)] if v[0] not in ("join", "typed") else [(v, st)]
            return [(join(v, *A[1:]), st)]
        if n in ("os.path.join", "posixpath.join") and A:
            return [(join(A[0], *A[1:]), st)]
        if n == "os.path.dirname" and A:
            return [(dirname(A[0]), st)]
        if n == "os.path.basename" and A and A[0][0] == "join":
            return [(A[0][2], st)]
        if n in ("os.fspath",) and A:
            return [(A[0], st)]
        if n == "typing.cast" and len(A) == 2:
            return [(A[1], st)]
        if n == "asyncio.run" and A:
            return self.await_value(A[0], st, node, fr)
        if n in ("asyncio.gather",):
            return self.gather(pos, kw, st, node, fr)
        if n in ("asyncio.shield", "asyncio.wait_for") and A and A[0][0] == "coro":
            st = st.copy()
            self.emit(Event("call", n, A, kw, node, fr), st)
            return [(A[0], st)]
        if n in ("asyncio.create_task", "asyncio.ensure_future"):
            st = st.copy()
            res = self.app(fr, node, n, A, kw)
            self.emit(Event("call", "task.spawn", A, kw, node, fr, res), st)
            return [(res, st)]
        if n.startswith("errno.") or n.startswith("signal.SIG"):
            return [(("app", n, tuple(A), (), 0), st)]
        if n in ("inspect.signature", "signature") and A and A[0][0] == "func":
            return [(("sig", A[0][1]), st)]
        if n == "iscoroutine" or n == "asyncio.iscoroutine" or n == "inspect.iscoroutine" or n == "inspect.isawaitable":
            if A and A[0][0] == "coro":
                return [(TRUE, st)]
            if A and A[0][0] in ("c", "obj", "tuple"):
                return [(FALSE, st)]
        if n in ("inspect.iscoroutinefunction", "asyncio.iscoroutinefunction") and A:
            if A[0][0] == "func":
                return [(C(bool(self.p.funcs[A[0][1]].is_async)), st)]
        if n == "inspect.isgeneratorfunction" and A and A[0][0] == "func":
            return [(C(bool(self.p.funcs[A[0][1]].is_gen)), st)]
        if n == "hasattr" and len(A) == 2:
            return [(("app", "hasattr", tuple(A), (), 0), st)]
        if n in ("sys.exit", "exit", "os._exit"):
            st = st.copy()
            self.emit(Event("call", "sys.exit", A or [C(0)], kw, node, fr), st)
            self.throw(("exc", "SystemExit", True), st)
            return []
        # ---- files
        if n in ("open", "io.open", "os.fdopen", "tempfile.NamedTemporaryFile",
                 "tempfile.mkstemp", "tempfile.TemporaryFile", "os.open",
                 "aiofiles.open", "tempfile.mkdtemp", "tempfile.TemporaryDirectory"):
            return self.open_ext(n, A, kw, st, node, fr)
        if n in M.FS_FUNCS:
            return self.fs_op(M.FS_FUNCS[n], A, kw, st, node, fr, n)
        if n in M.SPAWN:
            st = st.copy()
            res = self.app(fr, node, "proc:" + n, A, kw)
            st.heap.pop((res, "returncode"), None)
            self.emit(Event("call", "proc.spawn", A, kw, node, fr, res, n), st)
            if n in M.SPAWN_CHECKED or kw.get("check") == TRUE:
                self.throw(("exc", "subprocess.CalledProcessError", True), st)
            if n in ("subprocess.call", "os.system") and self.mon.proc_status:
                return self.proc_end(res, st, fr, node)
            self.throw(("exc", "Exception", False), st)
            if n == "subprocess.run" and self.mon.proc_status and kw.get("check") != TRUE:
                return [(res, s) for _, s in self.proc_end(res, st, fr, node)]
            return [(res, st)]
        if n in M.PURE_FUNCS or n.startswith(("os.path.", "itertools.", "operator.", "math.")):
            if n in ("min", "max") and len(A) == 1 and A[0][0] == "obj" and A[0][2] in ("list", "tuple"):
                its = st.heap.get((A[0], "#c"))
                if its is not None and all(i[0] == "v" for i in its):
                    A = [i[1] for i in its]
            if n in ("min", "max") and len(A) > 1 and all(is_c(a) for a in A):
                try:
                    return [(C({"min": min, "max": max}[n](a[2] for a in A)), st)]
                except Exception:
                    pass
            if n in ("abs", "int", "bool") and len(A) == 1 and not kw and is_c(A[0]) \
                    and isinstance(A[0][2], (int, float)):
                return [(C({"abs": abs, "int": int, "bool": bool}[n](A[0][2])), st)]
            if n == "binascii.b2a_hex":
                n = "binascii.hexlify"
            res = self.app(fr, node, n, A, kw, pure=True)
            if n in M.RAISES:
                st = st.copy()
                self.emit(Event("call", n, A, kw, node, fr, res), st)
                self.throw(("exc", M.RAISES[n], True), st)
            else:
                self.pure_raise(st, fr)
            return [(res, st)]
        if n in M.QUIET_FUNCS or n.startswith(("datetime.", "humanize.", "rich.", "argparse.", "colorama.")):
            st = st.copy()
            res = self.app(fr, node, n, A, kw)
            self.emit(Event("call", n, A, kw, node, fr, res), st)
            return [(res, st)]
        if n == "posix_fadvise" or n.endswith(".posix_fadvise"):
            return [(NONE, st)]
        if self._looks_like_class(n):
            st = st.copy()
            anc = M.exc_ancestors(n, self.p)
            if n.split(".")[-1].endswith(("Error", "Exception")) or n.startswith("aiohttp.web") and n.split(".")[-1].startswith("HTTP"):
                return [(("exc", M.canon_exc(n), True), st)]
            res = self.app(fr, node, n, A, kw)
            self.emit(Event("call", n, A, kw, node, fr, res), st)
            self.pure_raise(st, fr)
            return [(res, st)]
        # ---- anything else: an opaque call that may fail
        st = st.copy()
        res = self.app(fr, node, n, A, kw)
        self.emit(Event("call", n, A, kw, node, fr, res), st)
        self.throw(("exc", "Exception", False), st)
        if n in M.DUMPERS and (len(A) > 1 or "stream" in kw or "fp" in kw):
            # the serialisers write to the stream they are given
            stream = A[1] if len(A) > 1 else kw.get("stream", kw.get("fp"))
            text = ("app", n, (A[0],), (), 0)
            out = []
            for w, s1 in self.get_attr(stream, "write", st, fr, node):
                out += [(NONE, s2) for _, s2 in self.call(w, [text], {}, s1, node, fr)]
            return out
        return [(res, st)]

    def _looks_like_class(self, n):
        last = n.split(".")[-1]
        return last[:1].isupper() and not last.isupper()

    def gather(self, pos, kw, st, node, fr):
        """asyncio.gather: the coroutines run; order is not modelled."""
        swallow = kw.get("return_exceptions") == TRUE
        sts = [st]
        coros = []
        for a in pos:
            v = a[1] if a[0] == "star" else a
            if v[0] == "comp":
                coros += [("m", c, x) for c, x in v[2]]
            elif v[0] == "obj" and (v, "#c") in st.heap:
                for i in st.heap[(v, "#c")]:
                    if i[0] == "all" and i[1][0] == "comp":
                        coros += [("m", c, x) for c, x in i[1][2]]
                    elif i[0] == "v":
                        coros.append(("1", (), i[1]))
            else:
                coros.append(("1", (), v))
        saved = self.exc
        known = self.mon.exact and all(m == "1" for m, _, c in coros)
        if known:
            sts = self.gather_exact([c for _, _, c in coros], swallow, st, node, fr)
            coros = []
        for mult, facts, c in coros:
            if c[0] != "coro":
                continue
            nxt = []
            self.exc = mine = []
            for s in sts:
                s1 = s.copy()
                for a, v in facts:
                    s1.facts[a] = v
                for _, s2 in self.await_value(c, s1, node, fr):
                    nxt.append(s2)
                if mult == "m":
                    nxt.append(s)
            self.exc = saved
            for e, x in dedupe_pairs(mine):
                if swallow and e[1] != "asyncio.CancelledError":
                    nxt.append(x)
                else:
                    self.exc.append((e, x))
            sts = dedupe(nxt)
        out = []
        for s in sts:
            res = None
            if known:
                res, s = s
            s = s.copy()
            if res is None:
                res = self.app(fr, node, "asyncio.gather", pos, kw)
            self.emit(Event("call", "asyncio.gather", pos, kw, node, fr, res), s)
            out.append((res, s))
        return out

    def gather_exact(self, coros, swallow, st, node, fr):
        """the results, as a tuple: the coroutines run one after the other"""
        sts = [((), st)]
        for c in coros:
            if c[0] != "coro":
                sts = [(vs + (c,), s) for vs, s in sts]
                continue
            nxt = []
            saved, self.exc = self.exc, []
            for vs, s in sts:
                mine = self.exc = []
                nxt += [(vs + (v,), s2) for v, s2 in self.await_value(c, s.copy(), node, fr)]
                self.exc = saved
                for e, x in dedupe_pairs(mine):
                    if swallow and e[1] != "asyncio.CancelledError":
                        nxt.append((vs + (e,), x))
                    else:
                        self.exc.append((e, x))
            self.exc = saved
            sts = nxt
        return [(("tuple", vs), s) for vs, s in sts]

    def mkfile(self, st, fr, node, path, mode, extra=None):
        f = self.obj(st, fr, node, "file", extra)
        st.heap[(f, "#path")] = path
        st.heap[(f, "#mode")] = mode
        return f

    def open_ext(self, n, A, kw, st, node, fr):
        st0 = st
        st = st.copy()
        if n in ("tempfile.NamedTemporaryFile", "tempfile.TemporaryFile"):
            mode = A[0] if A else kw.get("mode", C("w+b"))
            d = kw.get("dir", NONE)
            path = ("tmp", self.site(fr, node, "tmp"), d)
            f = self.mkfile(st, fr, node, path, mode)
            self.emit(Event("call", "fs.mktemp", (path, mode), kw, node, fr, f, n), st)
            self.throw(("exc", "OSError", False), st0)
            return [(f, st)]
        if n in ("tempfile.mkstemp",):
            d = kw.get("dir", A[2] if len(A) > 2 else NONE)
            path = ("tmp", self.site(fr, node, "tmp"), d)
            fd = self.obj(st, fr, node, "fd")
            st.heap[(fd, "#path")] = path
            self.emit(Event("call", "fs.mktemp", (path, C("w+b")), kw, node, fr, fd, n), st)
            self.throw(("exc", "OSError", False), st0)
            return [(("tuple", (fd, path)), st)]
        if n == "os.fdopen":
            mode = A[1] if len(A) > 1 else kw.get("mode", C("r"))
            path = st.heap.get((A[0], "#path"), ("app", "fdpath", (A[0],), (), 0))
            f = self.mkfile(st, fr, node, path, mode)
            self.emit(Event("call", "fs.fdopen", (path, mode, A[0]), kw, node, fr, f, n), st)
            self.throw(("exc", "OSError", False), st0)
            return [(f, st)]
        if n.startswith("tempfile."):
            res = self.app(fr, node, n, A, kw)
            self.emit(Event("call", n, A, kw, node, fr, res), st)
            return [(res, st)]
        path = A[0] if A else kw.get("file", NONE)
        if n == "os.open":
            fd = self.obj(st, fr, node, "fd")
            st.heap[(fd, "#path")] = path
            self.emit(Event("call", "fs.open", (path, C("os.open")), kw, node, fr, fd, n), st)
            self.throw(("exc", "OSError", False), st0)
            return [(fd, st)]
        if path[0] == "obj" and path[2] == "fd":
            path = st.heap.get((path, "#path"), path)
        mode = A[1] if len(A) > 1 else kw.get("mode", C("r"))
        f = self.mkfile(st, fr, node, path, mode)
        self.emit(Event("call", "fs.open", (path, mode), kw, node, fr, f, n), st)
        self.throw(("exc", "OSError", False), st0)
        return [(f, st)]

    def fs_op(self, op, A, kw, st, node, fr, orig):
        st0 = st
        st = st.copy()
        if op in ("fs.copy", "fs.rename") and not kw.keys() & {"src", "dst"} and len(A) >= 2:
            args = [A[0], A[1]] + list(A[2:])
        else:
            args = list(A)
            for k in ("src", "path", "dst", "target", "mode"):
                if k in kw:
                    args.append(kw[k])
        args = [a if not (a[0] == "obj" and a[2] == "file" and op.startswith("fs."))
                else st.heap.get((a, "#path"), a) for a in args]
        if self.mon.ext and op in self.mon.ext:
            self.fs_name = orig
            r = self.mon.ext[op](self, args, kw, st)
            if r is not None:
                return r if isinstance(r, list) else [(r, st)]
        if op == "file.fsync" and args and args[0][0] == "app" and args[0][1] == ".fileno":
            args[0] = args[0][2][0]
        if op == "flock" and args and args[0][0] == "app" and args[0][1] == ".fileno":
            args[0] = args[0][2][0]
        res = self.app(fr, node, op, args, kw) if op not in ("os.sync",) else NONE
        if op not in M.FS_READONLY and not op.startswith("file") and op != "flock":
            for a in [a for a in st.facts if a[0] == "app" and a[1] in M.FS_READONLY]:
                del st.facts[a]
        if op == "file.close":
            st.heap[(args[0], "#closed")] = TRUE
        self.emit(Event("call", op, args, kw, node, fr, res, orig), st)
        if op == "os.sync":
            return [(NONE, st)]
        if op in M.FS_READONLY:
            self.pure_raise(st0, fr, "OSError")
            return [(res, st)]
        self.throw(("exc", "OSError", False), st0)
        if op == "fs.rmtree" and orig.startswith("aioshutil"):
            return [(res, st)]
        return [(res if op in ("fs.scandir", "fs.stat") else NONE, st)]

    def call_method(self, recv, name, pos, kw, st, node, fr):
        A = pos
        full = "." + name
        if recv[0] == "obj" and self.mon.ext and (recv[2], name) in self.mon.ext:
            st = st.copy()
            r = self.mon.ext[(recv[2], name)](self, [recv] + list(A), kw, st)
            if r is not None:
                return r if isinstance(r, list) else [(r, st)]
        if recv[0] == "obj" and recv[2] == "exitstack":
            r = self.stack_method(recv, name, A, kw, st, node, fr)
            if r is not None:
                return r
        if recv[0] == "c" and self.mon.ext and full in self.mon.ext:
            r = self.mon.ext[full](self, [recv] + list(A), kw, st)
            if r is not None:
                return [(r, st)]
        # ---- logger
        ty = self.typeof(recv, st)
        if name in M.LOG_METHODS and (ty and ty[0] == "ext" and "BoundLogger" in ty[1]
                                      or recv[0] == "attr" and recv[2] == "log"):
            return [(recv if name in ("bind", "new", "unbind") else NONE, st)]
        # ---- str
        if is_str(recv) and name == "format" and "**" not in kw:
            r = self.str_format(recv[2], A, kw)
            if r is not None:
                return [(r, st)]
        if is_str(recv) and name in ("strip", "removesuffix", "removeprefix", "startswith",
                                     "endswith", "lower", "upper", "split", "encode", "rstrip",
                                     "lstrip", "replace") and all(is_c(a) for a in A) and not kw:
            try:
                r = getattr(recv[2], name)(*[a[2] for a in A])
                if isinstance(r, list):
                    return [self.mkcont("list", [C(x) for x in r], st, fr, node)]
                return [(C(r), st)]
            except Exception:
                pass
        if name in ("startswith", "endswith") and is_str(recv) and len(A) == 1 and not is_c(A[0]):
            a = A[0]
            its = list(a[1]) if a[0] == "tuple" else None
            if its is None and self.mon.exact and a[0] == "conv" and a[1] == "tuple":
                its = self.exact_items(a, st)
                if its is None:
                    x = self.setlike(a[2], st)
                    its = None if x is None else list(x)
            if its is not None and all(is_str(i) for i in its):
                return [(C(getattr(recv[2], name)(tuple(i[2] for i in its))), st)]
        if name in ("startswith", "endswith") and len(A) == 1 and is_str(A[0]) and recv[0] == "str":
            h = recv[1][0] if name == "startswith" else recv[1][-1]
            if is_str(h) and getattr(h[2], name)(A[0][2]):
                return [(TRUE, st)]
            if is_str(h) and len(h[2]) >= len(A[0][2]):
                return [(FALSE, st)]
        if name == "join" and is_str(recv) and len(A) == 1:
            its = self.contents(A[0], st) if A[0][0] in ("tuple", "obj") else None
            if its is not None and all(i[0] == "v" for i in its):
                parts = []
                for i, it in enumerate(its):
                    if i:
                        parts.append(recv)
                    parts.append(it[1])
                return [(strcat(parts) if parts else C(""), st)]
            return [(("app", ".join", (recv, A[0]), (), 0), st)]
        if self.mon.exact and recv[0] == "tuple" and name in ("group", "groups") and \
                all(is_c(a) for a in A):
            return [(("tuple", recv[1][1:]) if name == "groups" else
                     recv[1][A[0][2] if A else 0], st)]
        # ---- Path algebra
        if name == "joinpath":
            return [(join(recv, *A), st)]
        if name == "with_suffix" and A:
            return [(with_suffix(recv, A[0]), st)]
        if name == "with_name" and A and recv[0] == "join":
            return [(join(recv[1], A[0]), st)]
        if name in ("resolve", "absolute", "expanduser", "as_posix", "__str__", "__fspath__") and not A:
            return [(recv, st)]
        # ---- files
        if recv[0] == "obj" and recv[2] == "file":
            return self.file_method(recv, name, A, kw, st, node, fr)
        if name in M.FS_METHODS and (recv[0] != "obj" or recv[2] not in ("list", "set", "dict")):
            return self.fs_op(M.FS_METHODS[name], [recv] + list(A), kw, st, node, fr, full)
        if name == "open" and (self.is_path(recv, st) or ty is None or recv[0] in ("join", "attr")):
            mode = A[0] if A else kw.get("mode", C("r"))
            return self.open_ext("open", [recv, mode], {k: v for k, v in kw.items() if k != "mode"},
                                 st, node, fr)
        if name == "replace" and self.is_path(recv, st):
            return self.fs_op("fs.rename", [recv] + list(A), kw, st, node, fr, full)
        # ---- containers we track
        if recv[0] == "obj" and recv[2] in ("list", "set", "dict", "defaultdict", "tuple"):
            r = self.container_method(recv, name, A, kw, st, node, fr)
            if r is not None:
                return r
        if recv[0] == "kwdict" and name in ("get", "pop", "items", "keys", "values"):
            for k, v in recv[1]:
                if A and C(k) == A[0]:
                    return [(v, st)]
            if name in ("get", "pop") and A and is_c(A[0]):
                return [(A[1] if len(A) > 1 else NONE, st)]
        # ---- event-loop helpers
        if name in ("create_task",) and A:
            st = st.copy()
            res = self.app(fr, node, full, (recv,) + tuple(A), kw)
            self.emit(Event("call", "task.spawn", A, kw, node, fr, res), st)
            return [(res, st)]
        if name == "run_until_complete" and A and A[0][0] == "coro":
            return self.await_value(A[0], st, node, fr)
        if name in M.MUTATORS:
            if name == "get":
                pass
            st0 = st
            st = st.copy()
            if name == "pop" and A and (recv, ("k", A[0])) in st.heap:
                res = st.heap[(recv, ("k", A[0]))]
                self.forget_about(recv, st)
                self.del_item(recv, A[0], st)
                self.emit(Event("mutate", name, (recv,) + tuple(A), kw, node, fr, res), st)
                return [(res, st)]
            self.forget_about(recv, st)
            if name in ("clear", "popitem", "pop"):
                for k in [k for k in st.heap if k[0] == recv and isinstance(k[1], tuple)
                          and k[1][0] == "k" and (name != "pop" or A[:1] == [k[1][1]])]:
                    del st.heap[k]
            res = self.app(fr, node, full, (recv,) + tuple(A), kw)
            if name in ("add", "append", "update", "extend") and recv[0] == "attr":
                pass
            self.emit(Event("mutate", name, (recv,) + tuple(A), kw, node, fr, res), st)
            self.pure_raise(st0, fr)
            if name in ("append", "extend", "add", "update", "discard", "remove", "insert",
                        "clear", "sort", "reverse"):
                res = NONE
            return [(res, st)]
        if name in M.PURE_METHODS and not (name == "get" and (
                set(kw) - {"default", "**"} or ty and ty[0] == "ext" and "ClientSession" in ty[1])):
            self.pure_raise(st, fr)
            if name == "get" and A and (recv, ("k", A[0])) in st.heap:
                return [(st.heap[(recv, ("k", A[0]))], st)]
            return [(self.app(fr, node, full, (recv,) + tuple(A), kw, pure=True), st)]
        # ---- the unknown
        if name == "check_returncode" and self.mon.proc_status and self.is_proc(recv):
            out = []
            for v, s in self.proc_end(recv, st, fr, node):
                if v == C(0):
                    out.append((NONE, s))
                else:
                    self.throw(("exc", "subprocess.CalledProcessError", True), s)
            return out
        if name == "communicate" and self.mon.proc_status and self.is_proc(recv):
            self.throw(("exc", "Exception", False), st)
            res = self.app(fr, node, full, (recv,) + tuple(A), kw)
            return [(res, s) for _, s in self.proc_end(recv, st, fr, node)]
        if name == "wait" and self.mon.proc_status and self.is_proc(recv):
            self.throw(("exc", "Exception", False), st)
            return self.proc_end(recv, st, fr, node)
        st = st.copy()
        res = self.app(fr, node, full, (recv,) + tuple(A), kw)
        self.emit(Event("call", full, (recv,) + tuple(A), kw, node, fr, res), st)
        self.throw(("exc", "Exception", False), st)
        return [(res, st)]

    def str_format(self, s, A, kw):
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(C(lit))
                if field is None:
                    continue
                if spec or conv:
                    return None
                if field == "":
                    parts.append(A[auto])
                    auto += 1
                elif field.isdigit():
                    parts.append(A[int(field)])
                elif field in kw:
                    parts.append(kw[field])
                else:
                    return None
        except Exception:
            return None
        return strcat(parts) if parts else C("")

    def file_method(self, f, name, A, kw, st, node, fr):
        if name == "close":
            return self.file_close(f, st, fr, node)
        if name == "fileno":
            return [(("app", ".fileno", (f,), (), 0), st)]
        st0 = st
        st = st.copy()
        res = self.app(fr, node, "file." + name, (f,) + tuple(A), kw)
        self.emit(Event("call", "file." + name, (f,) + tuple(A), kw, node, fr, res), st)
        self.throw(("exc", "OSError", False), st0)
        return [(res, st)]

    def container_method(self, o, name, A, kw, st, node, fr):
        its = st.heap.get((o, "#c"))
        isdict = o[2] in ("dict", "defaultdict")
        if self.mon.exact and name in ("index", "count") and A and all(is_c(a) for a in A[1:]):
            its2 = self.exact_items(o, st)
            eq = [self._cmp("==", A[0], x, st) for x in its2 or ()]
            if its2 is not None and None not in eq:
                if name == "count":
                    return [(C(eq.count(True)), st)]
                try:
                    return [(C(eq.index(True, *(a[2] for a in A[1:]))), st)]
                except ValueError:
                    self.throw(("exc", "ValueError", False), st)
                    return []
        if self.mon.exact and o[2] == "set" and A:
            x = self.exact_set(o, st)
            ys = [self.exact_set(a, st) for a in A] if name not in ("remove", "discard") else []
            if x is not None and name in ("remove", "discard") and is_c(A[0]):
                if A[0] not in x:
                    if name == "remove":
                        self.throw(("exc", "KeyError", True), st)
                        return []
                    return [(NONE, st)]
                st = st.copy()
                st.heap[(o, "#c")] = tuple(("v", i) for i in x if i != A[0])
                self.emit(Event("mutate", name, (o,) + tuple(A), kw, node, fr), st)
                return [(NONE, st)]
            if x is not None and None not in ys and name in (
                    "difference", "difference_update", "intersection", "intersection_update"):
                for y in ys:
                    x = [i for i in x if (i in y) == name.startswith("inter")]
                st = st.copy()
                n = o if name.endswith("update") else self.obj(st, fr, node, "set")
                st.heap[(n, "#c")] = tuple(("v", i) for i in x)
                return [(NONE if n == o else n, st)]
        if name in ("append", "add") and len(A) == 1:
            st = st.copy()
            cur = its or ()
            if name == "append" or ("v", A[0]) not in cur:
                st.heap[(o, "#c")] = cur + (("v", A[0]),)
            self.emit(Event("mutate", name, (o, A[0]), kw, node, fr), st)
            return [(NONE, st)]
        if name in ("extend", "update") and not isdict:
            st = st.copy()
            cur = its or ()
            for a in A:
                for i in self.contents(a, st):
                    if i not in cur or name == "extend":
                        cur = cur + (i,)
            st.heap[(o, "#c")] = cur
            self.emit(Event("mutate", name, (o,) + tuple(A), kw, node, fr), st)
            return [(NONE, st)]
        if name == "insert" and len(A) == 2 and not isdict:
            st = st.copy()
            st.heap[(o, "#c")] = (its or ()) + (("v", A[1]),)
            return [(NONE, st)]
        if isdict and name == "update":
            st = st.copy()
            ps = [(None, o)]
            ps += [(None, a) for a in A] + [(C(k), v) for k, v in kw.items() if k != "**"]
            kk, its2 = list(st.heap.get((o, "#k"), ())), list(its or ())
            for a in A:
                if a[0] == "obj" and (a, "#k") in st.heap:
                    for k, v in st.heap[(a, "#k")]:
                        kk = [p for p in kk if p[0] != k] + [(k, v)]
                        its2.append(("v", k))
                else:
                    its2.append(("all", a))
            for k, v in kw.items():
                kk = [p for p in kk if p[0] != C(k)] + [(C(k), v)]
                its2.append(("v", C(k)))
            st.heap[(o, "#k")] = tuple(kk)
            st.heap[(o, "#c")] = tuple(dict.fromkeys(its2))
            self.emit(Event("mutate", name, (o,) + tuple(A), kw, node, fr), st)
            return [(NONE, st)]
        if self.mon.exact and name == "pop" and not kw and its is not None and all(i[0] == "v" for i in its):
            if isdict and A and is_c(A[0]) and all(is_c(i[1]) for i in its):
                got = [v for k, v in st.heap.get((o, "#k"), ()) if k == A[0]]
                if not got and len(A) == 1:
                    self.throw(("exc", "KeyError", True), st)
                    return []
                if got or ("v", A[0]) not in its:
                    st = st.copy()
                    if got:
                        self.del_item(o, A[0], st)
                        self.emit(Event("mutate", name, (o,) + tuple(A), kw, node, fr), st)
                    return [(got[0] if got else A[1], st)]
            elif o[2] == "list" and (not A or len(A) == 1 and is_c(A[0]) and isinstance(A[0][2], int)):
                i = A[0][2] if A else -1
                if not -len(its) <= i < len(its):
                    self.throw(("exc", "IndexError", True), st)
                    return []
                rest = list(its)
                x = rest.pop(i)
                st = st.copy()
                st.heap[(o, "#c")] = tuple(rest)
                self.emit(Event("mutate", name, (o,) + tuple(A), kw, node, fr), st)
                return [(x[1], st)]
        if name in ("clear", "remove", "discard", "pop", "popitem", "difference_update",
                    "intersection_update"):
            st = st.copy()
            if name == "clear":
                st.heap[(o, "#c")] = ()
                if isdict:
                    st.heap[(o, "#k")] = ()
                res = NONE
            else:
                res = self.app(fr, node, "." + name, (o,) + tuple(A), kw)
                if isdict and A:
                    for k, v in st.heap.get((o, "#k"), ()):
                        if k == A[0]:
                            res = v
                    self.del_item(o, A[0], st)
                elif A and ("v", A[0]) in (its or ()):
                    st.heap[(o, "#c")] = tuple(i for i in its if i != ("v", A[0]))
                else:
                    st.heap[(o, "#c")] = tuple(("may", i) if i[0] != "may" else i for i in (its or ()))
            self.emit(Event("mutate", name, (o,) + tuple(A), kw, node, fr), st)
            if name in ("remove", "pop"):
                self.pure_raise(st, fr)
            return [(res, st)]
        if isdict and name in ("get", "setdefault") and A:
            for k, v in st.heap.get((o, "#k"), ()):
                if k == A[0]:
                    return [(v, st)]
            if name == "setdefault":
                st = st.copy()
                d = A[1] if len(A) > 1 else NONE
                self.set_item(o, A[0], d, st, fr, node)
                return [(d, st)]
            if its is not None and is_c(A[0]) and all(i[0] == "v" and is_c(i[1]) for i in its):
                return [(A[1] if len(A) > 1 else NONE, st)]
            return [(("app", ".get", (o,) + tuple(A), (), 0), st)]
        if isdict and name in ("items", "values", "keys"):
            kk = st.heap.get((o, "#k"), ())
            if its is not None and all(i[0] == "v" for i in its) and len(kk) == len(its) and \
                    len(kk) <= (64 if self.mon.exact else 8):
                vals = [("tuple", (k, v)) if name == "items" else v if name == "values" else k
                        for k, v in kk]
                return [(("tuple", tuple(vals)), st)]
            return [(("app", "." + name, (o,), (), 0), st)]
        if name == "sort":
            r = self.exact_sorted(o, kw, st, node, fr) if self.mon.exact else None
            st = st.copy()
            if r is not None:
                st.heap[(o, "#c")] = tuple(("v", x) for x in r)
            self.emit(Event("mutate", name, (o,) + tuple(A), kw, node, fr), st)
            return [(NONE, st)]
        if name == "copy":
            st = st.copy()
            n = self.obj(st, fr, node, o[2])
            for h in ("#c", "#k"):
                if (o, h) in st.heap:
                    st.heap[(n, h)] = st.heap[(o, h)]
            return [(n, st)]
        if name == "union":
            st = st.copy()
            n = self.obj(st, fr, node, "set")
            c = its or ()
            for a in A:
                c = c + self.contents(a, st)
            st.heap[(n, "#c")] = c
            return [(n, st)]
        return None


def _as_load(t):
    if isinstance(t, ast.Name):
        n = ast.Name(id=t.id, ctx=ast.Load())
    elif isinstance(t, ast.Attribute):
        n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    elif isinstance(t, ast.Subscript):
        n = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    else:
        return t
    key = id(t)
    n = _load_cache.setdefault(key, (n, t))[0]
    ast.copy_location(n, t)
    return n


_load_cache = {}


def _walk_depth(t, d=0):
    yield d
    if isinstance(t, (tuple, frozenset)) and d < 16:
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                yield from _walk_depth(x, d + 1)


def _has_closure(v, depth=0):
    if not isinstance(v, (tuple, frozenset)) or depth > 8:
        return False
    if isinstance(v, tuple) and v and v[0] in ("func", "gen", "coro", "cm") and len(v) > 2:
        return True
    if depth:
        return any(_has_closure(x, depth + 1) for x in v)
    r = _CLOSURES.get(id(v))
    if r is None or r[0] is not v:
        if len(_CLOSURES) > 100000:
            _CLOSURES.clear()
        r = _CLOSURES[id(v)] = v, any(_has_closure(x, 1) for x in v)
    return r[1]


_CLOSURES = {}
