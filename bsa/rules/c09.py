"""Expiry never removes what the schedule wants kept."""
import re

from ..interp import Budget
from .util import *
from .c31 import Heap, NOW as NOW1, Times, history, subst, value
from .c08 import source

NOW = ("datetime.datetime.now", "datetime.datetime.utcnow", "backy.utils.now")


def linear(t, sign=1, out=None):
    """{monomial (tuple of atoms): coefficient} or None"""
    out = {} if out is None else out

    def add(m, c):
        out[m] = out.get(m, 0) + c
    if t[0] == "typed":
        return linear(t[1], sign, out)
    if t[0] == "c" and isinstance(t[2], (int, float)):
        add((), sign * t[2])
        return out
    if t[0] == "bin" and t[1] in ("+", "-"):
        if linear(t[2], sign, out) is None:
            return None
        return linear(t[3], sign if t[1] == "+" else -sign, out)
    if t[0] == "un" and t[1] == "-":
        return linear(t[2], -sign, out)
    if t[0] == "bin" and t[1] == "*":
        a, b = linear(t[2]), linear(t[3])
        if a is None or b is None:
            return None
        for m, c in a.items():
            for n, d in b.items():
                add(tuple(sorted(m + n, key=repr)), sign * c * d)
        return out
    if t[0] == "app" and t[1] in NOW:
        add((("now",),), sign)
        return out
    if t[0] in ("bin", "loop", "ifexp"):
        return None
    add((t,), sign)
    return out


def difference(a, b):
    x, y = linear(a), linear(b)
    if x is None or y is None:
        return None
    for m, c in y.items():
        x[m] = x.get(m, 0) - c
    return {m: c for m, c in x.items() if c}


def strip(t):
    while True:
        if t[0] == "typed":
            t = t[1]
        elif t[0] == "conv":
            t = t[2]
        elif t[0] == "app" and t[1] in KEEPS and t[2]:
            t = t[2][0]
        else:
            return t


def is_schedule(t):
    """The mapping tag -> settings of the schedule."""
    t = strip(t)
    while t[0] == "app" and t[1] in (".keys", ".items") and t[2]:
        t = strip(t[2][0])
    return t[0] == "attr" and t[2] == "schedule"


def schedule_tag(t):
    """A key of the schedule; returns the loop element it comes from."""
    if t[0] == "idx" and t[2] == C(0) and t[1][0] == "elem":
        c = strip(t[1][1])
        if c[0] == "app" and c[1] == ".items" and is_schedule(c):
            return t[1]
    if t[0] == "elem" and is_schedule(t[1]) and strip(t[1])[1:2] != (".items",):
        return t
    return None


def member(x, M, S, rev, st, d=0):
    """Does a tag of rev (manual: M, in the schedule: S) belong to x?"""
    if d > 12:
        return None
    x = strip(x)
    if x == ("attr", rev, "tags") or x[0] == "loop" and x == st.heap.get((rev, "tags")):
        return True
    if x[0] == "loop" and len(x) > 2 and isinstance(x[2], tuple) and "tags" in x[2]:
        return True
    if x[0] == "obj" and (x, "#c") in st.heap:
        res = False
        for i in st.heap[(x, "#c")]:
            r = member(i[1], M, S, rev, st, d + 1) if i[0] == "all" else None
            res = True if True in (res, r) else None if None in (res, r) else False
        return res
    if is_schedule(x):
        return S
    op = None
    if x[0] == "bin" and x[1] in ("-", "&", "|"):
        op, a, b = x[1], x[2], x[3]
    elif x[0] == "app" and x[1] in (".difference", ".intersection", ".union") and len(x[2]) == 2:
        op, a, b = {"d": "-", "i": "&", "u": "|"}[x[1][1]], x[2][0], x[2][1]
    if op:
        p, q = member(a, M, S, rev, st, d + 1), member(b, M, S, rev, st, d + 1)
        if op == "-":
            return False if p is False or q is True else None if None in (p, q) else True
        if op == "&":
            return False if False in (p, q) else None if None in (p, q) else True
        return True if True in (p, q) else None if None in (p, q) else False
    if x[0] == "comp":
        res = False
        src = member(x[3], M, S, rev, st, d + 1)
        if src is not True:
            return src
        for conds, el in x[2]:
            if el[0] != "elem":
                return None
            r = True
            for a, v in conds:
                y = atom(a, el, M, S, rev, st, d + 1)
                y = None if y is None else y == v
                r = False if r is False or y is False else None if None in (r, y) else True
            res = True if True in (res, r) else None if None in (res, r) else False
        return res
    return None


def atom(a, el, M, S, rev, st, d):
    if a[0] == "app" and a[1] == ".startswith" and a[2][0] == el and a[2][1] == C("manual:"):
        return M
    if a[0] == "cmp" and a[1] in ("in", "not in", "notin") and a[2] == el:
        r = member(a[3], M, S, rev, st, d)
        return r if a[1] == "in" or r is None else not r
    if a[0] == "cmp" and a[1] in ("is", "==", "is not", "!=") and a[3] == NONE \
            and a[2][0] == "app" and a[2][1] == ".get" and is_schedule(a[2][2][0]):
        return (not S) == (a[1] in ("is", "=="))
    return None


class Mon(Monitor):
    """state: (history read, revisions whose change is not stored yet)"""

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return (False, ())

    def event(self, ev, st, I):
        scanned, dirty = st.mon
        if ev.kind == "call" and ev.name.endswith("Repository.scan"):
            st.mon = (True, ())
            return
        if ev.kind == "call" and ev.name.endswith("Revision.write_info"):
            st.mon = (scanned, tuple(x for x in dirty if x != ev.args[0]))
            return
        if ev.kind == "setattr" and ev.name == "tags":
            rev, val = ev.args
            self.changed(ev, st, rev, ("new", val, ev.extra))
        elif ev.kind == "mutate" and len(ev.args) > 1 and ev.name in (
                "remove", "discard", "difference_update", "intersection_update") \
                and ev.args[0][0] in ("attr", "loop"):
            t = ev.args[0]
            rev = t[1] if t[0] == "attr" and t[2] == "tags" else None
            if t[0] == "loop":
                rev = next((k[0] for k, v in st.heap.items() if v == t and k[1] == "tags"), None)
            if rev is not None:
                self.changed(ev, st, rev, ("one" if ev.name in ("remove", "discard") else
                                           ev.name, ev.args[1], None))
        elif ev.kind == "mutate" and ev.name in ("clear", "pop") and ev.args[0][0] == "attr" \
                and ev.args[0][2] == "tags":
            self.changed(ev, st, ev.args[0][1], ("all", None, None))
        elif ev.kind == "call" and (ev.name.endswith("Revision.remove") or ev.name == "fs.unlink"):
            rev = ev.args[0]
            if ev.name == "fs.unlink" and not endswith(rev, ".rev"):
                return
            self.removed(ev, st, rev)

    def removed(self, ev, st, rev):
        scanned, dirty = st.mon
        self.ctx.saw("revision removal", f"{self.entry}: {ev.where()}")
        st.mon = (scanned, tuple(x for x in dirty if x != rev))
        root, conds = source(rev)
        known = dict(conds)
        known.update(st.facts)
        cur = st.heap.get((rev, "tags"))
        for a, v in known.items():
            b, w = a, v
            if a[0] == "cmp" and a[2][0] == "app" and a[2][1] == "len" and a[3] == C(0):
                b, w = a[2][2][0], not v if a[1] == "==" else v if a[1] in (">", "!=") else True
            if not w and (b == cur or b[0] == "attr" and b[2] == "tags"
                          and (b[1] == rev or b[1][0] == "elem")):
                break
        else:
            self.ctx.finding("C09.tagless", self.entry,
                             "a revision is removed that may still have tags: nothing shows that "
                             "the schedule or the user gave it up", ev.loc(), st.path())
        self.scanned(ev, st)

    def scanned(self, ev, st):
        if not st.mon[0]:
            self.ctx.finding("C09.scan", self.entry,
                             "expiry works on revisions read before the lock was taken: tags "
                             "changed since are overwritten", ev.loc(), st.path())

    def changed(self, ev, st, rev, how):
        if source(rev)[0] == rev:
            return
        scanned, dirty = st.mon
        st.mon = (scanned, dirty + (rev,) if rev not in dirty else dirty)
        self.ctx.saw("tag removal", f"{self.entry}: {ev.where()}")
        self.scanned(ev, st)
        kind, x, old = how
        if kind == "one":
            el = schedule_tag(x)
            if el is not None:
                self.keep(ev, st, rev, x, el)
            else:
                self.other(ev, st, rev, x)
            return
        bad = []
        for M in (False, True):
            for S in (False, True):
                if M and S:
                    continue
                if kind == "all":
                    gone = True
                elif kind == "new":
                    r = member(x, M, S, rev, st)
                    gone = None if r is None else not r
                elif kind == "difference_update":
                    gone = member(x, M, S, rev, st)
                else:
                    r = member(x, M, S, rev, st)
                    gone = None if r is None else not r
                if gone and M:
                    bad.append("manual tags")
                elif gone and S:
                    bad.append("tags that are in the schedule")
        if bad:
            self.ctx.finding("C09.foreign", self.entry,
                             f"expiry strips {' and '.join(bad)} whatever the age and number of "
                             "the revisions", ev.loc(), st.path())
        else:
            self.ctx.saw("tags not in the schedule", f"{self.entry}: {ev.where()}")

    def other(self, ev, st, rev, x):
        """A single tag: must be known not to be in the schedule nor manual."""
        root, conds = source(x)
        M = S = None
        for a, v in list(conds.items()) + list(st.facts.items()):
            if a[0] == "app" and a[1] == ".startswith" and a[2][1] == C("manual:"):
                M = v
            if a[0] == "cmp" and a[1] in ("in", "not in", "notin") and is_schedule(a[3]):
                S = v == (a[1] == "in")
        if M or S or root[0] == "attr" and root[2] == "tags" and (M is None or S is None):
            self.ctx.finding("C09.foreign", self.entry, "expiry strips a tag that may be manual "
                             "or in the schedule", ev.loc(), st.path())

    def keep(self, ev, st, rev, tag, el):
        # settings of that tag
        def setting(t, name):
            if t[0] == "idx" and t[2] == C(name):
                b = t[1]
                return b[0] == "idx" and (b[1] == el and b[2] == C(1)
                                          or is_schedule(b[1]) and b[2] == tag)
            return False

        def keeps(m):
            return [a for a in m if setting(a, "keep")]
        ts = ("attr", rev, "timestamp")
        root, conds = source(rev)
        known = dict(conds)
        known.update(st.facts)
        age, wrong = False, None
        unknown = False
        for a, v in known.items():
            if a[0] != "cmp" or a[1] not in ("<", "<=", ">", ">="):
                continue
            tss = [s for s in subterms(a) if s[0] == "attr" and s[2] == "timestamp"
                   and (s[1] == rev or s[1][0] == "elem")]
            if not tss:
                continue
            d = difference(a[2], a[3])
            if d is None:
                unknown = True
                continue
            op = a[1]
            if not v:
                op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
            if op in (">", ">="):
                d = {m: -c for m, c in d.items()}
            # d < 0 holds on this path; wanted: ts - now + keep*interval <= 0
            t = d.get((tss[0],), 0)
            n = d.get((("now",),), 0)
            ki = [(m, c) for m, c in d.items() if len(m) == 2 and keeps(m)
                  and any(setting(x, "interval") for x in m)]
            rest = [m for m in d if m != (tss[0],) and m != (("now",),)
                    and m not in [x for x, _ in ki]]
            if t > 0 and n == -t and ki and ki[0][1] >= t and not rest:
                age = True
            elif rest:
                unknown = any(x[0] in ("app", "loop") for m in rest for x in m) or unknown
                wrong = a
            else:
                wrong = a
        if age:
            self.ctx.saw("age checked", f"{self.entry}: {ev.where()}")
        elif not unknown:
            self.ctx.finding("C09.age", self.entry,
                             "a schedule tag is removed from a revision that may be younger than "
                             "keep * interval" + (f" ({show(wrong)})" if wrong else ""),
                             ev.loc(), st.path())
        # not among the newest `keep`
        ok, unknown, seen = False, False, False
        t = rev
        while t[0] in ("elem", "slice", "conv", "typed", "comp", "app"):
            if t[0] == "slice":
                lo, hi = t[2], t[3]
                if hi != NONE:
                    seen = True
                    d = linear(hi)
                    if d is None:
                        unknown = True
                    else:
                        k = sum(c for m, c in d.items() if keeps(m) and len(m) == 1)
                        length = sum(c for m, c in d.items() if len(m) == 1
                                     and m[0][0] == "app" and m[0][1] == "len")
                        const = d.get((), 0)
                        rest = [m for m in d if m and not (len(m) == 1 and (
                            keeps(m) or m[0][0] == "app" and m[0][1] == "len"))]
                        if not rest and k <= -1 and length in (0, 1) and const <= 0:
                            ok = True
                        elif rest:
                            unknown = True
                elif lo != NONE:
                    seen = True
                t = t[1]
            elif t[0] == "elem":
                t = t[1]
            elif t[0] == "typed":
                t = t[1]
            elif t[0] == "conv":
                if t[1] in ("reversed", "enumerate"):
                    unknown = True
                t = t[2]
            elif t[0] == "comp":
                t = t[3]
            elif t[0] == "app" and t[1] in KEEPS and t[2]:
                t = t[2][0]
            else:
                break
        for a, v in known.items():
            if any(setting(s, "keep") for s in subterms(a)):
                lenonly = a[0] == "cmp" and any(
                    s[0] == "app" and s[1] == "len" for s in (a[2], a[3]))
                isage = any(s[0] == "attr" and s[2] == "timestamp" for s in subterms(a))
                if not lenonly and not isage:
                    unknown = True
                if a[0] == "cmp" and a[1] in ("in", "not in", "notin") and \
                        v != (a[1] == "in"):
                    unknown = True
        if ok:
            self.ctx.saw("newest kept", f"{self.entry}: {ev.where()}")
        elif not unknown:
            self.ctx.finding("C09.newest", self.entry,
                             "a schedule tag is removed from a revision that may be among the "
                             "newest `keep` ones with that tag", ev.loc(), st.path())

    def done(self, out):
        for v, st in out:
            for rev in st.mon[1]:
                self.ctx.finding("C09.stored", self.entry,
                                 "tags removed from a revision are not written to disk before "
                                 "expiry ends", "", st.path())


class Auto(Monitor):
    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name.endswith("Revision.remove"):
            rev = ev.args[0]
            self.ctx.saw("revision removal", f"{self.entry}: {ev.where()}")
            cur = st.heap.get((rev, "tags"), ("attr", rev, "tags"))
            auto = any(a[0] == "sym" and a[1] == "autoremove" and v for a, v in st.facts.items())
            empty = any(a in (cur, ("attr", rev, "tags")) and not v for a, v in st.facts.items()) \
                or cur[0] == "obj" and st.heap.get((cur, "#c")) == ()
            if not empty:
                self.ctx.finding("C09.tagless", self.entry, "a revision is removed that may still "
                                 "have tags", ev.loc(), st.path())
            if not auto:
                self.ctx.finding("C09.autoremove", self.entry, "a revision is removed although "
                                 "the caller did not ask for automatic removal",
                                 ev.loc(), st.path())


# ------------------------------------------------------- constant histories
KEEP = {"daily": (100, 3), "weekly": (700, 2), "daily2": (50, 1)}
# age, tags; oldest first
REVS = [
    [],
    [(5000, "daily")],
    [(5000, ""), (4000, "manual:x"), (3000, "dail"), (2000, "former manual:x"), (10, "daily")],
    [(500, "daily"), (400, "daily"), (299, "daily"), (200, "daily"), (100, "daily")],
    [(900, "daily"), (800, "daily weekly"), (700, "daily"), (600, "daily manual:daily"), (500, "daily"), (400, "daily")],
    [(301, "daily"), (300, "daily"), (299, "daily"), (3, "daily"), (2, "daily"), (1, "daily")],
    [(3000, "weekly"), (2000, "weekly former"), (1401, "weekly daily"), (1399, "weekly daily"), (1000, "weekly daily"),
     (90, "daily daily2"), (60, "daily2"), (55, "daily2 manual:keep")],
    [(900, "daily2"), (800, "daily2 daily"), (700, "daily2"), (600, "daily2 daily"), (500, "daily daily2")],
    [(9000, "weekly daily daily-old"), (8000, "weekly daily manual:a"), (7000, "weekly"), (6000, "daily"),
     (5000, "daily weekly"), (4000, "daily"), (3000, "daily"), (2000, "daily former2")],
]


def expected(revs):
    tags = [set(t.split()) for _, t in revs]
    for tag, (interval, keep) in KEEP.items():
        have = [i for i, t in enumerate(tags) if tag in t]
        for i in have[:-keep]:
            if revs[i][0] > keep * interval:
                tags[i].remove(tag)
    tags = [{x for x in t if x in KEEP or x.startswith("manual:")} for t in tags]
    return tags


class World(Times):
    def __init__(self):
        self.ext = dict(Times.ext)

        def split(I, A, kw, st):
            if len(A) != 2 or kw or not all(map(is_str, A)):
                return None
            o = ("obj", ("split", A[0][2], A[1][2]), "list")
            st.heap[(o, "#c")] = tuple(("v", C(x)) for x in re.split(A[0][2], A[1][2]))
            return o
        self.ext["re.split"] = split


def tags_of(rev, st):
    t = st.heap.get((rev, "tags"))
    v = value(t, st) if t else None
    return None if v is None or v[0] not in "st" else frozenset(x[1] for x in v[1])


def expiring(ctx):
    """Schedule.expire of a few constant histories"""
    f = ctx.p.try_method("Schedule", "expire")
    if f is None or len(f.params()) != 2:
        return
    e = "Schedule.expire"
    ctx.rule("C09.exact", "of constant histories exactly the tags are taken off that are due, exactly the revisions "
             "are removed that have none left, and every change is written")
    for k, revs in enumerate(REVS):
        h = Heap()
        ivs = h.dict({t: h.dict({"interval": C(i), "keep": C(n)}) for t, (i, n) in KEEP.items()})
        sched = h.of("backy.schedule.Schedule", schedule=ivs, config=ivs)
        hist = history(h, [(NOW1 - age, tags.split(), True) for age, tags in revs])
        repo = h.of("backy.repository.Repository", history=hist, schedule=sched)
        objs = [x for _, x in h.h[(hist, "#c")]]
        for o in objs:
            h.h[(o, "repository")] = repo
        disk, gone = ("sym", "disk", None), ("sym", "gone", None)

        def write(I, fv, args, kw, st, node, fr):
            o, st = fv[3] or args[0], st.copy()
            t = tags_of(o, st)
            if o not in objs or t is None:
                return None
            st.heap[(disk, o)] = C(t)
            return [(NONE, st)]

        def remove(I, fv, args, kw, st, node, fr):
            o, st = fv[3] or args[0], st.copy()
            if o not in objs:
                return None
            st.heap[(gone, o)] = TRUE
            st.heap[(hist, "#c")] = tuple(x for x in st.heap[(hist, "#c")] if x != ("v", o))
            return [(NONE, st)]
        none = lambda I, fv, args, kw, st, node, fr: [(NONE, st)]
        case = f"expiry of history {k}"
        sub = subst()
        sub.update({"backy.revision.Revision.write_info": write, "backy.revision.Revision.remove": remove,
                    "backy.repository.Repository.scan": none})
        m = World()
        st0 = h.state(m)
        for o in objs:
            st0.heap[(disk, o)] = C(tags_of(o, st0))
        try:
            _, out, exc = ctx.run(f, m, st=st0, self_val=sched, args={f.params()[1]: repo}, subst=sub, lookup=False,
                                  scan=False, max_steps=60000)
        except Budget:
            ctx.saw("undecided", f"{case}: too many paths")
            continue
        got = {tuple((tags_of(o, st), st.heap.get((disk, o)), (gone, o) in st.heap) for o in objs) for _, st in out}
        sure = [x for x, _ in exc if x[0] == "exc" and x[2]]
        if len(got) != 1 or any(t is None for x in got for t, _, _ in x) or sure or m.vague:
            if not m.vague and not out and len(sure) == len(exc):
                ctx.finding("C09.exact", e, f"fails with {sure[0][1]}: {list(revs)}", f.loc)
                continue
            ctx.saw("undecided", f"{case}: {len(got)} answers {sure[:1]}")
            continue
        ctx.saw("decided", case)
        want = expected(revs)
        for (age, tags), (t, d, g), w in zip(revs, next(iter(got)), want):
            who = f"the revision made {age} s ago with the tags {tags!r} in {list(revs)}"
            if g != (not w):
                msg = "is removed" if g else "is not removed"
            elif not g and t != w:
                msg = f"is left with the tags {sorted(t)} instead of {sorted(w)}"
            elif not g and d != C(t):
                msg = "is not written"
            else:
                continue
            ctx.finding("C09.exact", e, f"{who} {msg} (schedule: interval, keep {KEEP})", f.loc)
            break


def check(ctx):
    expiring(ctx)
    ctx.rule("C09.age", "a tag of the schedule is removed only from revisions older than "
             "keep * interval")
    ctx.rule("C09.newest", "... and not from the newest `keep` revisions with that tag")
    ctx.rule("C09.foreign", "other tags are removed only if they are neither manual nor in the "
             "schedule")
    ctx.rule("C09.tagless", "a revision is removed only if it has no tags left")
    ctx.rule("C09.scan", "expiry judges revisions read under the lock")
    ctx.rule("C09.stored", "tags removed are written to disk")
    e = "Repository.expire"
    m = Mon(ctx, e)
    I, out, exc = ctx.run(e, m, opaque={"Revision.write_info", "Revision.remove"})
    m.done(out)
    e = "Repository.tags"
    ctx.run(e, Auto(ctx, e), opaque={"Revision.write_info", "Revision.remove"})
    ctx.need("tag removal", 1)
    ctx.need("revision removal", 1)
