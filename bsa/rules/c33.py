"""Changing tags: what was asked for, on what was asked for, or nothing.

The tag functions are analysed with constant propagation on an abstract
history; `find_revisions` (C30) is replaced by the revisions it selects."""
import itertools

from ..interp import Budget
from .c31 import Heap, Times, c, run, sched, value
from .util import *

REVS = [{"a"}, {"a", "b"}, {"manual:x"}]
ORIG = [{"a"}, {"old"}, set()]     # as last known at their server
KNOWN = {"a": 100, "b": 200, "d": 300}
SPEC = "the:revisions"


class Effects(Times):
    """state: ((write | remove, revision, tags), ...) in order"""

    def init(self):
        return ()

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.args:
            n = ev.name.split(":")[-1].split(".")[-1]
            if ev.name.endswith(("Revision.write_info", "Revision.remove")):
                r = ev.args[0]
                st.mon = st.mon + ((n, r, value(st.heap.get((r, "tags"), NONE), st)),)


def model(h, revs=REVS):
    objs = []
    for i, tags in enumerate(revs):
        objs.append(h.of("backy.revision.Revision", timestamp=C(100 * i), uuid=C(f"uuid{i}"), server=C(""),
                         stats=h.dict({"duration": C(3)}),
                         tags=h.seq("set", [C(t) for t in sorted(tags)]),
                         orig_tags=h.seq("set", [C(t) for t in sorted(ORIG[i])])))
    s, _ = sched(h, KNOWN)
    hist = h.seq("list", objs)
    r = h.of("backy.repository.Repository", history=hist, schedule=s)
    return r, objs, hist


def tset(xs):
    return ("s", frozenset(c(*xs)))


def outcomes(ctx, func, case, h, m, args, self_val, subst):
    """[(answer | raises, state)] of all paths, or None"""
    from .c31 import subst as base
    sub = base()
    sub.update(subst)
    try:
        I, out, exc = ctx.run(func, m, st=h.state(m), args=args, self_val=self_val, subst=sub, lookup=False,
                              scan=False, max_steps=20000, opaque={"Revision.write_info", "Revision.remove"})
    except Budget:
        ctx.saw("undecided", f"{case}: too many paths")
        return None, None
    return out, exc


def change(ctx):
    f = ctx.p.try_method("Repository", "tags")
    if f is None:
        return
    e = "Repository.tags"
    news = [{"b"}, {"a", "manual:x"}, {"zz"}, set(), {"d", "b"}]
    expects = [None, {"a"}, {"a", "b"}, set()]
    sels = [(0,), (0, 1), (1, 0), (2,), (), (0, 1, 2)]
    for action, new, expect, auto, force, sel in itertools.product(
            ("set", "add", "remove"), news, expects, (False, True), (False, True), sels):
        if expect is not None and len(sel) > 2 or not new and action == "add":
            continue
        h = Heap()
        m = Effects()
        r, objs, hist = model(h)
        asked = []

        def find(I, fv, args, kw, st, node, fr):
            asked.extend(a for a in [*args, *kw.values()] if is_str(a))
            return [(I_list(I, [objs[i] for i in sel], st), st)]

        def I_list(I, xs, st):
            o = h.seq("list", xs)
            st.heap[(o, "#c")] = tuple(("v", x) for x in xs)
            return o

        def scan(I, fv, args, kw, st, node, fr):
            return [(NONE, st)]
        args = {"action": C(action), "revision": C(SPEC), "tags": h.seq("set", [C(t) for t in sorted(new)]),
                "expect": NONE if expect is None else h.seq("set", [C(t) for t in sorted(expect)]),
                "autoremove": C(auto), "force": C(force)}
        case = f"{action} {sorted(new)} expecting {expect and sorted(expect)} autoremove={auto} force={force} on {sel}"
        out, exc = outcomes(ctx, f, case, h, m, args, r,
                            {"backy.repository.Repository.find_revisions": find,
                             "backy.repository.Repository.scan": scan})
        if out is None:
            continue
        unknown = action != "remove" and not force and {t for t in new if t.startswith("manual:") is False} - set(KNOWN)
        mismatch = expect is not None and any(REVS[i] != expect for i in sel)
        for a in asked:
            if a != C(SPEC):
                ctx.finding("C33.selected", e, f"the revisions {a[2]} are selected, not those asked for")
        # whatever fails: nothing was changed before it was found to be allowed
        if unknown or mismatch:
            for v, st in out + exc:
                if st.mon:
                    ctx.finding("C33.nothing", e + (": unknown tags" if unknown else ": unexpected tags"),
                                f"{case}: {st.mon[0][0]} although "
                                f"{'tags are unknown' if unknown else 'the expectation is not met'}", "", st.path())
        if unknown:
            ctx.saw("decided", case)
            for v, st in out:
                if not (mismatch and I_false(v, st)):
                    ctx.finding("C33.valid", e, f"{case}: unknown tags are accepted", "", st.path())
            continue
        if mismatch:
            ctx.saw("decided", case)
            for v, st in out:
                if is_c(v) and v[2]:
                    ctx.finding("C33.expect", e, f"{case}: reported as done although the tags are not as "
                                "expected", "", st.path())
            continue
        if not out:
            sure = [(x, st) for x, st in exc if x[0] == "exc" and x[2]]
            if sure:
                ctx.saw("decided", case)
                ctx.finding("C33.done", e, f"{case}: always fails ({sure[0][0][1]})", "", sure[0][1].path())
            else:
                ctx.saw("undecided", f"{case}: raises")
            continue
        if len({st.mon for _, st in out}) > 1:
            ctx.saw("undecided", f"{case}: {len(out)} answers")
            continue
        for v, st in out:
            want = []
            for i in sel:
                t = {"set": new, "add": REVS[i] | new, "remove": REVS[i] - new}[action]
                want.append((i, tset(t), "remove" if auto and not t else "write_info"))
            got = {}
            odd = None
            for n, o, tags in st.mon:
                if o not in objs:
                    odd = "unknown revision"
                    break
                got.setdefault(objs.index(o), []).append((n, tags))
            if odd or any(t is None for g in got.values() for _, t in g):
                ctx.saw("undecided", f"{case}: {odd or 'tags'}")
                continue
            ctx.saw("decided", case)
            for i, tags, how in want:
                g = got.get(i, [])
                if not g and how == "write_info" and tags == tset(REVS[i]):
                    continue        # nothing to do
                if not g:
                    ctx.finding("C33.done", e, f"{case}: revision {i} is left as it is on disk", "", st.path())
                elif g[-1][0] != how:
                    ctx.finding("C33.autoremove", e, f"{case}: revision {i} is "
                                f"{'removed' if g[-1][0] == 'remove' else 'kept'} although "
                                f"{'it has no tags left' if how == 'remove' else 'it must not be'}", "", st.path())
                elif how == "write_info" and g[-1][1] != tags:
                    ctx.finding("C33.done", e, f"{case}: revision {i} gets {txt(g[-1][1])} instead of "
                                f"{txt(tags)}", "", st.path())
                elif any(x[0] == "remove" for x in g[:-1]):
                    ctx.finding("C33.autoremove", e, f"{case}: revision {i} is removed", "", st.path())
            for i in set(got) - set(sel):
                ctx.finding("C33.selected", e, f"{case}: revision {i} is changed", "", st.path())
            for i in range(len(REVS)):
                o = value(st.heap.get((objs[i], "orig_tags"), NONE), st)
                if o is not None and o != tset(ORIG[i]):
                    ctx.finding("C33.original", e, f"{case}: the tags known to be at the revision's server "
                                "are changed", "", st.path())
            if is_c(v) and not v[2]:
                ctx.finding("C33.done", e, f"{case}: reported as failed", "", st.path())


def I_false(v, st):
    return is_c(v) and not v[2]


def txt(v):
    return sorted(x[1] for x in v[1]) if v and v[0] in "st" else v


def validate(ctx):
    f = ctx.p.try_method("Repository", "validate_tags")
    if f is None:
        return
    n = f.params()[1]
    for tags in ({"a"}, {"zz"}, {"manual:q"}, {"manual:q", "b"}, {"manual:q", "zz"}, {"a", "zz"}, set(),
                 {"a", "b", "d"}, {"manual"}, {"xmanual:a"}):
        for kind in ("set",):
            h = Heap()
            r, objs, hist = model(h)
            case = f"tags {sorted(tags)} with the schedule {sorted(KNOWN)}"
            v = run(ctx, f, case, h, args={n: h.seq(kind, [C(t) for t in sorted(tags)])}, self_val=r)
            if v is None:
                continue
            bad = {t for t in tags if not t.startswith("manual:")} - set(KNOWN)
            if (v[0][0] == "raises") != bool(bad):
                ctx.finding("C33.valid", "Repository.validate_tags",
                            f"{case}: {'refused' if not bad else 'accepted'}", "", v[1].path())


def _int(I, A, kw, st):
    return C(int(A[0][2])) if len(A) == 1 and is_c(A[0]) and isinstance(A[0][2], (bool, int, float)) else None


class Cli(Times):
    """state: (calls of Repository.tags)"""
    ext = {**Times.ext, "int": _int}

    def init(self):
        return ()


NAMES = ["action", "revision", "tags", "expect", "autoremove", "force"]


def cli(ctx):
    f = ctx.p.try_method("Command", "tags")
    if f is None:
        return
    e = "Command.tags"
    have = set(f.all_params())
    g = ctx.p.try_method("Repository", "tags")
    callee = g.params() if g else []
    if not set(NAMES) <= set(callee):
        return
    for action, auto, expect, tags, force in itertools.product(
            ("set", "add", "remove"), (False, True), (None, "a", "a, b"), ("x", " x ,y", "x,y,x"), (False, True)):
        args = {"tag_action": C(action), "autoremove": C(auto), "expect": C(expect), "revision": C(SPEC),
                "tags": C(tags), "force": C(force)}
        if not set(args) <= have:
            ctx.notes.append(f"{e}: parameters {sorted(have)}")
            return
        for answer in (True, False):
            case = f"backy tags {action} {tags!r} expect={expect!r} autoremove={auto} force={force}"
            h = Heap()
            m = Cli()
            r, objs, hist = model(h)

            def call(I, fv, args, kw, st, node, fr):
                got = dict(zip(callee, args))
                got.update(kw)
                st = st.copy()
                st.mon = st.mon + (tuple((n, value(got[n], st) if n in got else None) for n in NAMES),)
                return [(C(answer), st)]
            try:
                I, out, exc = ctx.run(f, m, st=h.state(m), args={**args, "repo": r}, lookup=False, scan=False,
                                      max_steps=20000, subst={"backy.repository.Repository.tags": call})
            except Budget:
                ctx.saw("undecided", f"{case}: too many paths")
                continue
            judge(ctx, e, case, out, answer, action, auto, expect, tags, force)


def judge(ctx, e, case, out, answer, action, auto, expect, tags, force):
    split = lambda s: {x.strip() for x in s.split(",")}
    want = {"action": ("c", action), "revision": ("c", SPEC), "tags": tset(split(tags)),
            "expect": ("c", None) if expect is None else tset(split(expect)),
            "autoremove": ("c", auto), "force": ("c", force)}
    default = {"expect": ("c", None), "autoremove": ("c", False), "force": ("c", False)}
    for v, st in out:
        if not st.mon:
            ctx.finding("C33.asked", e, f"{case}: no tags are changed", "", st.path())
        for call in st.mon:
            ctx.saw("decided", case)
            for n, g in call:
                if g is not None and g != want[n] and not (g[0] in "st" and want[n][0] in "st"
                                                           and set(g[1]) == set(want[n][1])):
                    ctx.finding("C33.asked", e, f"{case}: {n} is {g[1]}", "", st.path())
        if len(st.mon) == 1 and is_c(v) and (v[2] in (None, 0, False)) != answer:
            ctx.finding("C33.status", e, f"the exit status is {v[2]} although the tags were "
                        f"{'changed' if answer else 'not changed'}", "", st.path())


def check(ctx):
    ctx.rule("C33.done", "every selected revision gets exactly the tags set / in addition / without those removed, "
             "and is written")
    ctx.rule("C33.selected", "only the revisions selected are changed")
    ctx.rule("C33.nothing", "nothing is changed if tags are unknown or not as expected")
    ctx.rule("C33.expect", "a failed expectation is reported")
    ctx.rule("C33.valid", "tags that are neither manual nor in the schedule are refused, unless forced")
    ctx.rule("C33.autoremove", "a revision is removed exactly if autoremove was asked for and no tags are left")
    ctx.rule("C33.original", "the tags last known at the server of the revision are left alone")
    ctx.rule("C33.asked", "the command line's tags, expectation and flags are the ones used")
    ctx.rule("C33.status", "the exit status says whether the tags were changed")
    change(ctx)
    validate(ctx)
    cli(ctx)
    ctx.need("decided", 1)
