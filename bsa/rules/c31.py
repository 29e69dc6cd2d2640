"""When backups are due, and when the SLA is violated.

Time is abstracted to numbers of seconds (the calendar plays no part in the
schedule), the schedule and the history to a few tags and revisions that are in
every relation to each other that the code can observe: the order of the due
times, the age of the last backup of a tag compared with its interval. The
functions are analysed with constant propagation on each of these."""
import itertools

from ..interp import Budget, State
from .util import *

NOW = 1_000_000


def _num(t):
    return is_c(t) and isinstance(t[2], (int, float)) and not isinstance(t[2], bool)


UNITS = {"days": 86400, "seconds": 1, "microseconds": 1e-6, "milliseconds": 1e-3, "minutes": 60,
         "hours": 3600, "weeks": 604800}
ORDER = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]


def _delta(I, A, kw, st):
    if not all(_num(a) for a in A) or not all(_num(v) for v in kw.values()):
        return None
    r = sum(a[2] * UNITS[n] for a, n in zip(A, ORDER)) + sum(v[2] * UNITS[n] for n, v in kw.items()
                                                             if n in UNITS)
    return C(r)


def _now(I, A, kw, st):
    return C(NOW)


def _zero(I, A, kw, st):
    return C(0)


def _self(I, A, kw, st):
    return A[0] if _num(A[0]) else None


def _fold(f):
    def g(I, A, kw, st):
        if not all(_num(a) for a in A) or kw:
            return None
        try:
            r = f(*(a[2] for a in A))
        except (ValueError, TypeError, ZeroDivisionError):
            return None
        return ("tuple", tuple(C(x) for x in r)) if isinstance(r, tuple) else C(r)
    return g


def _math():
    import math
    return {"math.floor": _fold(math.floor), "math.ceil": _fold(math.ceil), "divmod": _fold(divmod),
            "round": _fold(round), "abs": _fold(abs), "float": _fold(float), "math.fmod": _fold(math.fmod),
            "math.trunc": _fold(math.trunc), "max": None, "min": None}


class Times(Monitor):
    exact = True
    ext = {"datetime.timedelta": _delta, "datetime.datetime.now": _now, "datetime.datetime.utcnow": _now,
           ("attr", "seconds"): lambda x: C(int(x) % 86400) if isinstance(x, (int, float)) else None,
           ("attr", "days"): lambda x: C(int(x) // 86400) if isinstance(x, (int, float)) else None,
           "time.time": _now, "time.monotonic": _now, ".total_seconds": _self, ".timestamp": _self, ".astimezone": _self,
           "int": _fold(int), **{k: v for k, v in _math().items() if v}}


def subst():
    one = lambda n: lambda I, fv, args, kw, st, node, fr: [(C(n), st)]
    return {"backy.utils.now": one(NOW), "backy.utils.min_date": one(0)}


# ------------------------------------------------------------ abstract objects
class Heap:
    def __init__(self):
        self.h, self.n = {}, 0

    def new(self, kind):
        self.n += 1
        return ("obj", -self.n, kind)

    def dict(self, d):
        o = self.new("dict")
        self.h[(o, "#k")] = tuple((C(k), v) for k, v in d.items())
        self.h[(o, "#c")] = tuple(("v", C(k)) for k in d)
        return o

    def seq(self, kind, xs):
        o = self.new(kind)
        self.h[(o, "#c")] = tuple(("v", x) for x in xs)
        return o

    def of(self, cls, **attrs):
        o = self.new(cls)
        for k, v in attrs.items():
            self.h[(o, k)] = v
        return o

    def state(self, mon):
        return State(heap=dict(self.h), mon=mon.init())


def value(t, st):
    """The Python value of an abstract one, or None"""
    if is_c(t):
        return ("c", t[2])
    if t[0] == "tuple":
        xs = [value(x, st) for x in t[1]]
        return None if None in xs else ("t", tuple(xs))
    if t[0] == "conv" and t[1] in ("list", "tuple", "iter"):
        return value(t[2], st)
    if t[0] == "obj":
        its = st.heap.get((t, "#c"))
        if its is None or not all(i[0] == "v" for i in its):
            return None
        if t[2] in ("dict", "defaultdict"):
            kk = {value(k, st): value(v, st) for k, v in st.heap.get((t, "#k"), ())}
            if None in kk or None in kk.values() or len(kk) != len(its):
                return None
            return ("d", frozenset(kk.items()))
        xs = [value(i[1], st) for i in its]
        if None in xs:
            return None
        return ("s", frozenset(xs)) if t[2] in ("set", "frozenset") else ("t", tuple(xs))
    return None


def c(*xs):
    return tuple(("c", x) for x in xs)


def run(ctx, func, case, heap=None, args=None, self_val=None, **kw):
    """The answers on the abstract input: [(value, state)], None: undecided"""
    m = Times()
    sub = subst()
    sub.update(kw.pop("subst", {}))
    h = heap or Heap()
    try:
        I, out, exc = ctx.run(func, m, st=h.state(m), args=args, self_val=self_val, subst=sub, lookup=False,
                              scan=False, max_steps=20000, **kw)
    except Budget:
        ctx.saw("undecided", f"{case}: too many paths")
        return None
    vals = [(value(v, st), st) for v, st in out]
    if any(v is None for v, _ in vals):
        ctx.saw("undecided", f"{case}: {[show(v)[:80] for v, _ in out][:3]}")
        return None
    if len({v for v, _ in vals}) > 1:
        ctx.saw("undecided", f"{case}: {len(vals)} answers")
        return None
    sure = [(e, st) for e, st in exc if e[0] == "exc" and e[2]]
    if not vals and not (sure and len(sure) == len(exc)):
        ctx.saw("undecided", f"{case}: raises {[e for e, _ in exc][:2]}")
        return None
    if vals and any(e[1] != "AssertionError" for e, _ in sure):
        ctx.saw("undecided", f"{case}: or raises {sure[0][0][1]}")
        return None
    ctx.saw("decided", case)
    if not vals:
        return ("raises", sure[0][0][1]), sure[0][1]
    return vals[0]


def has(ctx, *names):
    return all(ctx.p.try_method(*n.split(".")) for n in names)


def durations(ctx):
    f = next((f for f in ctx.p.funcs if f.qual == "backy.schedule.parse_duration"), None)
    if f is None:
        return
    n = f.params()[0]
    for text, secs in (("1w", 604800), ("2w", 1209600), ("1d", 86400), ("31d", 2678400), ("1h", 3600),
                       ("6h", 21600), ("15m", 900), ("30s", 30), ("120", 120)):
        r = run(ctx, f, f'"{text}"', args={n: C(text)})
        if r is None:
            continue
        v, st = r
        if v != ("c", secs):
            ctx.finding("C31.duration", "parse_duration",
                        f'"{text}" is {v[1]} instead of {secs} seconds', "", st.path())


def intervals(ctx):
    f = next((f for f in ctx.p.funcs if f.qual == "backy.schedule.next_in_interval"), None)
    if f is None:
        return
    rel, iv, sp = f.params()[:3]
    for interval, spread in itertools.product((60, 3600, 86400), (0, 1, 7, 59, 61, 86399, 100000, 4000)):
        s = spread % interval
        for k, off in ((2000, -1), (2000, 0), (2000, 1), (2001, interval // 2), (1999, s), (2000, 0.5)):
            relative = k * interval + s + off
            want = (relative - s) // interval * interval + interval + s
            r = run(ctx, f, f"after {relative} every {interval} + {spread}",
                    args={rel: C(relative), iv: C(interval), sp: C(spread)})
            if r is None:
                continue
            v, st = r
            if v != ("c", want):
                how = "" if v[0] != "c" or not isinstance(v[1], (int, float)) else \
                    "it is not in the future" if v[1] <= relative else \
                    "a time in between is skipped" if v[1] > want else \
                    "it is not at the job's place in the interval"
                ctx.finding("C31.next", "next_in_interval",
                            f"the time after {relative} with interval {interval} and spread {spread} is "
                            f"{v[1]} instead of {want}: {how}", "", st.path())
                return


TAGS = ("a", "b", "c")


def sched(h, ivs):
    s = h.dict({t: h.dict({"interval": C(i), "keep": C(5)}) for t, i in ivs.items()})
    return h.of("backy.schedule.Schedule", schedule=s, config=s), s


def ideal(ctx):
    f = ctx.p.try_method("Schedule", "_next_ideal")
    if f is None:
        return
    for order in itertools.product((1, 2, 3), repeat=3):
        ivs = dict(zip(TAGS, (100, 200, 300)))
        due = dict(zip((100, 200, 300), order))
        h = Heap()
        s, _ = sched(h, ivs)
        odd = []

        def nx(I, fv, args, kw, st, node, fr):
            a = list(args) + [None] * 3
            i = kw.get("interval", a[1])
            if i is None or not is_c(i) or i[2] not in due:
                return None
            for k, (p, v) in enumerate((("relative", "relative"), (None, None), ("spread", "spread"))):
                x = kw.get(p, a[k]) if p else None
                if x is not None and not any(y[0] == "sym" and y[1] == v for y in subterms(x)):
                    odd.append(f"{p} is {show(x)}")
            return [(C(10 * due[i[2]]), st)]
        r = run(ctx, f, f"due in the order {order}", h, self_val=s,
                subst={"backy.schedule.next_in_interval": nx})
        if odd:
            ctx.finding("C31.ideal", "Schedule._next_ideal", odd[0], "")
        if r is None:
            continue
        v, st = r
        first = min(order)
        tags = frozenset(c(*(t for t, o in zip(TAGS, order) if o == first)))
        if v[0] != "t" or len(v[1]) != 2:
            ctx.finding("C31.ideal", "Schedule._next_ideal", f"the answer is {v}", "", st.path())
            continue
        if v[1][0] != ("c", 10 * first):
            ctx.finding("C31.ideal", "Schedule._next_ideal", "the time is not the earliest a tag is due", "",
                        st.path())
        elif frozenset(v[1][1][1]) != tags:
            ctx.finding("C31.ideal", "Schedule._next_ideal",
                        f"the tags of the next backup are not those due then: {order}", "", st.path())


def history(h, revs):
    """[(timestamp, tags, clean)] -> list of revisions"""
    res = []
    for i, (ts, tags, clean) in enumerate(revs):
        stats = h.dict({"bytes_written": C(1), **({"duration": C(3)} if clean else {})})
        tg = h.seq("set", [C(t) for t in tags])
        res.append(h.of("backy.revision.Revision", timestamp=C(ts), tags=tg, stats=stats, uuid=C(f"uuid{i}"),
                        server=C(""), orig_tags=h.seq("set", [C(t) for t in tags])))
    return h.seq("list", res)


def repo(h, revs, schedule):
    hist = history(h, revs)
    return h.of("backy.repository.Repository", history=hist, schedule=schedule)


REVS = [
    [],
    [(NOW - 50, "a", True)],
    [(NOW - 150, "a", True), (NOW - 50, "a", False)],
    [(NOW - 350, "ab", True), (NOW - 250, "c", True), (NOW - 150, "b", True), (NOW - 90, "a", True)],
    [(NOW - 90, "abc", True), (NOW - 10, "x", True)],
    [(NOW - 500, "abc", True), (NOW - 10, "x", True)],
    [(NOW - 90, "abc", False)],
    [(NOW - 150, "abc", True)],
    [(NOW - 250, "abc", True), (NOW - 40, "", True)],
    [(NOW - 320, "abc", True), (NOW - 110, "ab", True), (NOW - 99, "b", True)],
    [(NOW - 300.1, "c", True), (NOW - 200.1, "b", True), (NOW - 100.1, "a", True)],
    [(NOW - 299.9, "c", True), (NOW - 199.9, "b", True), (NOW - 99.9, "a", True)],
]
IVS = {"a": 100, "b": 200, "c": 300}


def last_times(revs):
    res = {}
    for ts, tags, clean in revs:
        for t in tags:
            if clean:
                res[t] = ts
    return res


def last_by_tag(ctx):
    f = ctx.p.try_method("Repository", "last_by_tag")
    if f is None:
        return
    for k, revs in enumerate(REVS):
        h = Heap()
        s, _ = sched(h, IVS)
        r = run(ctx, f, f"last_by_tag on history {k}", h, self_val=repo(h, revs, s))
        if r is None:
            continue
        v, st = r
        want = ("d", frozenset(zip(c(*last_times(revs)), c(*last_times(revs).values()))))
        if v != want and v[0] == "d":
            ctx.finding("C31.last", "Repository.last_by_tag",
                        f"the last backups are {dict(v[1])} instead of {last_times(revs)}"[:200], "", st.path())


def missing(revs):
    l = last_times(revs)
    return {t for t, i in IVS.items() if not (t in l and l[t] > NOW - i)}


def missed(ctx):
    f = ctx.p.try_method("Schedule", "_missed")
    if f is None:
        return
    n = f.params()[1]
    for k, revs in enumerate(REVS):
        h = Heap()
        s, _ = sched(h, IVS)
        r = run(ctx, f, f"missed tags with history {k}", h, self_val=s, args={n: repo(h, revs, s)})
        if r is None:
            continue
        v, st = r
        if v[0] == "raises":
            ctx.finding("C31.missed", "Schedule._missed", f"raises {v[1]} for last backups {last_times(revs)}",
                        "", st.path())
        elif v[0] in ("s", "t") and frozenset(v[1]) != frozenset(c(*missing(revs))):
            ctx.finding("C31.missed", "Schedule._missed",
                        f"{sorted(x[1] for x in v[1])} are missed instead of {sorted(missing(revs))} "
                        f"(seconds since the last backup: { {t: NOW - x for t, x in last_times(revs).items()} })",
                        "", st.path())


def upcoming(ctx):
    f = ctx.p.try_method("Schedule", "next")
    if f is None or not has(ctx, "Schedule._next_ideal", "Schedule._missed"):
        return
    ps = f.params()[1:]
    entry = "Schedule.next"
    for ahead, tags, miss, hist in itertools.product((10, 299, 301, 5000), ("a", "ab"), ("", "b", "bc"),
                                                     (0, 1, 3)):
        h = Heap()
        s, _ = sched(h, IVS)
        t = C(NOW + ahead)
        ts, ms = h.seq("set", [C(x) for x in tags]), h.seq("set", [C(x) for x in miss])
        rep = repo(h, REVS[3][:hist], s)
        give = lambda x: lambda I, fv, args, kw, st, node, fr: [(x, st)]
        r = run(ctx, f, f"next backup in {ahead} for {tags}, missed {miss or 'none'}, {hist} revisions", h,
                self_val=s, args={ps[2]: rep} if len(ps) > 2 else None,
                subst={"backy.schedule.Schedule._next_ideal": give(("tuple", (t, ts))),
                       "backy.schedule.Schedule._missed": give(ms)})
        if r is None:
            continue
        v, st = r
        if v[0] != "t" or len(v[1]) != 2 or v[1][1][0] not in ("s", "t"):
            ctx.finding("C31.upcoming", entry, f"the answer is {v}"[:120], "", st.path())
            continue
        when, what = v[1][0][1], {x[1] for x in v[1][1][1]}
        at_once = bool(miss) and hist > 0 and ahead > 300
        if at_once:
            if when != NOW:
                ctx.finding("C31.upcoming", entry, "a missed backup is not made up for at once", "", st.path())
            elif not set(miss) <= what:
                ctx.finding("C31.upcoming", entry, "the backup made at once has not all missed tags", "",
                            st.path())
            elif what - set(miss):
                ctx.finding("C31.upcoming", entry,
                            "the backup made at once has tags that are due later", "", st.path())
        else:
            if when != NOW + ahead:
                ctx.finding("C31.upcoming", entry, f"the next backup is not at the regular time: "
                            f"in {when - NOW} instead of {ahead} seconds", "", st.path())
            elif what != set(tags) | set(miss):
                ctx.finding("C31.upcoming", entry, "the next backup has not the regular and the missed tags", "",
                            st.path())


def sla(ctx):
    f = ctx.p.try_method("Repository", "sla_overdue")
    g = ctx.p.try_method("Repository", "sla")
    for ivs, ages in itertools.product(({"a": 100, "b": 1000}, {"b": 1000, "a": 100}, {"a": 2000}),
                                       ((), (10,), (5000, 149), (151,), (120, 90), (99999, 2900),
                                        (3100,), (150,), (3000,), (99999,), (200, -10), (-10,), (90000,), (3100, -50))):
        h = Heap()
        s, _ = sched(h, ivs)
        revs = [(NOW - abs(a), "a", a > 0) for a in ages]
        rep = repo(h, revs, s)
        good = [a for a in ages if a > 0]
        overdue = bool(good) and good[-1] > 1.5 * min(ivs.values())
        what = f"newest complete backup {good[-1] if good else 'never'}, shortest interval {min(ivs.values())}"
        if f is not None:
            r = run(ctx, f, f"sla_overdue: {what}", h, self_val=rep)
            if r is not None:
                v, st = r
                want = ("c", good[-1]) if overdue else ("c", 0)
                if v != want:
                    ctx.finding("C31.sla", "Repository.sla_overdue",
                                f"{what} seconds: {v[1]} instead of {want[1]}", "", st.path())
        if g is not None:
            r = run(ctx, g, f"sla: {what}", h, self_val=rep)
            if r is not None:
                v, st = r
                if v[0] == "raises" or bool(v[1]) == overdue:
                    ctx.finding("C31.sla", "Repository.sla", f"{what} seconds: {v[1]}", "", st.path())


def order(ctx):
    f = ctx.p.try_method("Schedule", "sorted_tags")
    if f is None:
        return
    n = f.params()[1]
    for tags in itertools.permutations(("a", "b", "c", "x"), 3):
        h = Heap()
        s, _ = sched(h, IVS)
        r = run(ctx, f, f"order of {tags}", h, self_val=s, args={n: h.seq("set", [C(t) for t in tags])})
        if r is None:
            continue
        v, st = r
        want = sorted(tags, key=lambda t: IVS.get(t, 0))
        if v != ("t", c(*want)):
            ctx.finding("C31.order", "Schedule.sorted_tags",
                        f"{', '.join(tags)} are not sorted by their interval", "", st.path())


# what differs from one start of the daemon to the next
CHANCE = ("time.", "datetime.datetime.now", "datetime.datetime.utcnow", "uuid.", "shortuuid.", "os.urandom",
          "os.getpid", "secrets.", "random.", "hash", "id", "object", "repo:backy.utils.now")
DRAWS = {"randint", "randrange", "random", "uniform", "choice", "triangular", "gauss", "betavariate", "getrandbits",
         "sample", "shuffle", "choices", "randbytes", "expovariate", "normalvariate"}


def by_chance(t):
    """the first thing in t that is not the same after a restart"""
    for s in subterms(t):
        if s[0] == "app" and s[1] != "random.Random" and any(
                s[1] == n or n.endswith(".") and s[1].startswith(n) for n in CHANCE):
            return s
        if s[0] == "obj" and s[2] == "object":
            return s
    return None


class Spread(Monitor):
    """User state: the generators seeded, with what."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.about = set()

    def init(self):
        return frozenset()

    def bad(self, ev, st, msg):
        self.ctx.finding("C31.spread", "Job.spread", msg, ev.loc(), st.path())

    def event(self, ev, st, I):
        if ev.kind != "call":
            return
        if ev.name in ("random.Random", "random.SystemRandom"):
            a = list(ev.args[:1]) + list(ev.kw.values())
            if ev.name.endswith("Random") and a and a[0] != NONE:
                self.seed("new", a[0], ev, st)
        elif ev.name in (".seed", "random.seed"):
            g, a = (ev.args[0], ev.args[1:]) if ev.name == ".seed" else (None, ev.args)
            a = list(a) + list(ev.kw.values())
            if a and a[0] != NONE:
                self.seed(g, a[0], ev, st)
        elif ev.name.rsplit(".", 1)[-1] in DRAWS and (
                ev.name.startswith("random.") or ev.args and ev.args[0][0] == "app" and
                ev.args[0][1] in ("random.Random", "random.SystemRandom")):
            own = ev.name.startswith(".")
            g = ev.args[0] if own else None
            if own and g[1].endswith("SystemRandom"):
                self.bad(ev, st, "the place of the job in its interval is drawn anew after each restart")
            elif g not in st.mon and not (own and (g[2] and g[2][0] != NONE or g[3])):
                self.bad(ev, st, "the place of the job in its interval is drawn from a generator that was not "
                         "seeded: it is another one each time")

    def seed(self, g, x, ev, st):
        y = by_chance(x)
        if y is not None:
            self.bad(ev, st, f"the place of the job in its interval depends on {show(y)}, which is not the same "
                     "after a restart")
        self.about |= {s for s in subterms(x)}
        st.mon = st.mon | {g}


def spread(ctx):
    f = ctx.p.try_method("Job", "spread")
    if f is None:
        return
    m = Spread(ctx)
    I, out, exc = ctx.run(f, m)
    for v, st in out:
        y = by_chance(v)
        if y is not None and not (y[1].startswith("random.") and y[1][7:] in DRAWS):
            ctx.finding("C31.spread", "Job.spread", f"the place of the job in its interval depends on {show(y)}, "
                        "which is not the same after a restart", "", st.path())
        if not any(s[0] == "attr" and s[2] == "name" for s in set(subterms(v)) | m.about):
            ctx.finding("C31.spread", "Job.spread", "the place in the interval does not depend on the job: all "
                        "start at once", "", st.path())
    drawn(ctx, f)


def _text(f):
    def g(I, A, kw, st):
        try:
            return C(f(*(a[2] for a in A))) if all(is_c(a) for a in A) and not kw else None
        except (ValueError, TypeError):
            return None
    return g


def drawn(ctx, f):
    """The smallest and the largest place the code may draw."""
    import hashlib
    import zlib
    for end in (0, 1):
        pick = lambda lo, hi: hi if end else lo
        m = Times()
        m.ext = dict(Times.ext)
        for h in ("md5", "sha1", "sha256", "sha512", "blake2b"):
            m.ext["hashlib." + h] = _text(lambda b, h=h: getattr(hashlib, h)(b).hexdigest())
        m.ext.update({
            ".hexdigest": _text(lambda x: x), ".digest": _text(bytes.fromhex), "zlib.crc32": _text(zlib.crc32),
            "zlib.adler32": _text(zlib.adler32), "int": _text(int), "int.from_bytes": _text(int.from_bytes),
            "random.Random": lambda I, A, kw, st: C("generator"), ".encode": _text(lambda s, *a: s.encode()),
            ".seed": lambda I, A, kw, st: NONE, ".randint": _text(lambda g, a, b: pick(a, b)),
            ".randrange": _text(lambda g, a, b=None: pick(a, b - 1) if b is not None else pick(0, a - 1)),
            ".uniform": _text(lambda g, a, b: pick(a, b)), ".random": _text(lambda g: pick(0.0, 1 - 1e-12))})
        for ivs in ({"a": 100}, {"a": 100, "b": 3600, "c": 86400}, {"x": 604800, "y": 60}):
            for name in ("vm00", "db3", "test"):
                h = Heap()
                s, _ = sched(h, ivs)
                job = h.of("backy.daemon.scheduler.Job", name=C(name), source=h.of(
                    "backy.source.Source", repository=h.of("backy.repository.Repository", schedule=s)))
                case = f"spread of {name} within {max(ivs.values())}"
                try:
                    I, out, exc = ctx.run(f, m, st=h.state(m), self_val=job, subst=subst(), lookup=False,
                                          scan=False, max_steps=20000)
                except Budget:
                    out = []
                vals = [value(v, st) for v, st in out]
                if len(vals) != 1 or vals[0] is None or vals[0][0] != "c" or \
                        not isinstance(vals[0][1], (int, float)):
                    ctx.saw("undecided", case)
                    continue
                ctx.saw("decided", case)
                if not 0 <= vals[0][1] <= max(ivs.values()):
                    ctx.finding("C31.spread", "Job.spread", f"the place of the job in its interval may be "
                                f"{vals[0][1]}, the longest interval is {max(ivs.values())}", "", out[0][1].path())
                    return


def check(ctx):
    ctx.rule("C31.duration", "a duration is its number of the unit given")
    ctx.rule("C31.next", "the next time is the first one in the future with the job's place in the interval")
    ctx.rule("C31.ideal", "the next backup is at the earliest time a tag is due, for the tags due then")
    ctx.rule("C31.last", "the last backup of a tag is the newest complete one that has it")
    ctx.rule("C31.missed", "tags without a complete backup within their interval are missed")
    ctx.rule("C31.upcoming", "missed tags are part of the next backup, which is made at once if there are any")
    ctx.rule("C31.sla", "the SLA is violated when the newest complete backup is older than 1.5 intervals")
    ctx.rule("C31.order", "tags are sorted by their interval")
    ctx.rule("C31.spread", "a job's place in its interval is a function of its name, within the longest interval")
    durations(ctx)
    intervals(ctx)
    spread(ctx)
    ideal(ctx)
    last_by_tag(ctx)
    missed(ctx)
    upcoming(ctx)
    sla(ctx)
    order(ctx)
    ctx.need("decided", 1)
