"""The data a differential backup starts from is the base of its diff."""
import ast
import itertools

from ..interp import Budget
from .util import *
from .c06 import FILE
from .c10 import BACKUP_OPAQUE, rev_of
from .c11 import atom_trust, trust_is
from .c31 import Heap, Times


def uuid_of(t):
    """Revisions whose uuid occurs in t."""
    return {s[1] for s in subterms(t) if s[0] == "attr" and s[2] == "uuid"}


class Base(Monitor):
    """state: (bases copied: (path revision, parent), files opened for writing,
    reason why no copy was needed)"""
    branches = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return ((), (), False)

    def event(self, ev, st, I):
        copies, files, there = st.mon
        n = ev.name
        if ev.kind == "call" and n in ("file.write", "fs.writefile", "fs.copy", "fs.copyobj") \
                and len(ev.args) > 1:
            if n in ("fs.copy", "fs.copyobj"):
                dst, what = ev.args[1], ev.args[0]
            else:
                dst, what = ev.args[0], ev.args[1]
            dst = uuid_of(path_of(dst, st))
            src = set()
            for s in subterms(what):
                src |= uuid_of(path_of(s, st)) if s[0] in ("obj", "app", "attr", "join") else set()
            if any(rev_of(d) for d in dst):
                copies = copies + tuple(sorted(src - dst, key=repr))
        elif ev.kind == "fact" and cval(ev.args[1]) and ev.args[0][0] == "app" \
                and "exists" in ev.args[0][1] and any(rev_of(r) for r in uuid_of(ev.args[0])):
            there = True
        elif ev.kind == "new" and n.endswith(".File"):
            files = files + ((ev.args[0], copies),)
        elif ev.kind == "call" and n.endswith("CephRBD.diff"):
            args = list(ev.args[1:]) + list((ev.kw or {}).values())
            base = next((a for a in args if a not in dict(files)), None)
            f = next((a for a in args if a in dict(files)), None)
            self.ctx.saw("diff", f"{self.entry}: {ev.loc()}")
            if f is not None and base is not None and not there:
                c = dict(files)[f]
                if base not in c:
                    self.ctx.finding("C12.base", self.entry,
                                     f"the diff is against {show(base)}, but what it is applied to "
                                     f"starts from {', '.join(show(x) for x in c) or 'nothing'}",
                                     ev.loc(), st.path())
                elif c[-1] != base:
                    self.ctx.finding("C12.base", self.entry, "the base is overwritten",
                                     ev.loc(), st.path())
            if base is not None and st.facts.get(base) is not True:
                self.ctx.finding("C12.base", self.entry, "a diff is made without a parent",
                                 ev.loc(), st.path())
        elif ev.kind == "call" and n.endswith("CephRBD.full"):
            self.ctx.saw("full", f"{self.entry}: {ev.loc()}")
            f = next((a for a in ev.args if a in dict(files)), None)
            if f is not None and dict(files)[f]:
                self.ctx.finding("C12.full", self.entry, "a full backup starts from the data of "
                                 "another revision", ev.loc(), st.path())
        st.mon = (copies, files, there)


class Parent(Monitor):
    """Revision.get_parent.  state: (candidates' facts complete?, ordered)"""
    loops = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.ordered = False
        self.cands = []

    def init(self):
        return ()

    def event(self, ev, st, I):
        if ev.kind == "iter":
            st.mon = tuple(sorted({k for k, v in st.env.items() if v == ev.args[1]}, key=repr))
        elif ev.kind == "iterend":
            el = ev.args[1]
            new = [k for k, v in st.env.items() if v == el and k not in st.mon]
            if new and el[0] == "elem":
                self.cands.append((el, dict(st.facts), ev, st))
        elif ev.kind == "loopend" and ev.name == "break":
            if any(self.own(a) and v for a, v in st.facts.items()):
                self.ordered = True

    @staticmethod
    def own(a):
        return a[0] == "cmp" and a[1] in ("==", "is") and any(
            x[0] == "sym" and x[1] == "self" or x[0] == "attr" and x[2] == "uuid"
            and x[1][0] == "sym" for x in a[2:4])

    def judge(self, el, facts, ev, st):
        why = []
        mine = {a: v for a, v in facts.items() if mentions(a, el)}
        if not any(atom_trust(a, "DISTRUSTED") == el and not v for a, v in mine.items()) and \
                not any(v and (atom_trust(a, "TRUSTED") or atom_trust(a, "VERIFIED"))
                        for a, v in mine.items()):
            why.append(("C12.trusted", "a distrusted revision may be the parent"))
        if not any(a[0] == "cmp" and a[1] in ("==", "is") and v
                   and any(x == ("attr", el, "server") for x in a[2:4]) for a, v in mine.items()) \
                and not any(a == ("attr", el, "server") and not v for a, v in mine.items()):
            why.append(("C12.local", "a revision of another server may be the parent"))
        for r, t in why:
            self.ctx.finding(r, self.entry, t, ev.loc() if ev else "", st.path())
        if any(a[0] == "cmp" and a[1] in ("<", "<=", ">", ">=") for a in mine):
            self.ordered = True

    def done(self, out):
        for el, facts, ev, st in self.cands:
            self.ctx.saw("candidate parent", f"{self.entry}: {ev.loc()}")
            self.judge(el, facts, ev, st)
        for v, st in out:
            if any(self.own(a) and t for a, t in st.facts.items()):
                self.ordered = True
            self.ctx.saw("parent", f"{self.entry}: {show(v)[:80]}")
            if v == NONE or self.cands and v[0] == "elem":
                continue
            root, conds, partial = root_of(v[1] if v[0] == "idx" else v)
            if v[0] == "elem":
                self.judge(v, dict(st.facts), None, st)
                if any(self.own(a) for a in st.facts) or st.facts and any(
                        a[0] == "forall" for a in st.facts):
                    self.ordered = True
            elif conds:
                for a in conds:
                    els = [s for s in subterms(a) if s[0] == "elem"]
                    if els:
                        self.judge(els[0], conds, None, st)
                        break
                self.ordered = self.ordered or any(
                    a[0] == "cmp" and a[1] in ("<", "<=", ">", ">=") for a in conds)
                if partial:
                    self.ordered = True
            else:
                self.ordered = True     # not understood
        if not self.ordered:
            self.ctx.finding("C12.before", self.entry, "the search for the parent does not stop at "
                             "the revision itself")


class Snap(Monitor):
    """state: the last revision or question found to be (un)true"""
    branches = True

    def __init__(self):
        self.asked = []     # how the parent of the revision is asked for

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name.endswith("Revision.get_parent"):
            self.asked.append((ev.args[1:], dict(ev.kw or {})))
        if ev.kind == "fact":
            a, v = ev.args[0], cval(ev.args[1])
            if v and any(s[0] == "app" and s[1].endswith("RBDClient.exists") for s in subterms(a)):
                st.mon = a
            elif not v and (a[0] == "app" and a[1].endswith("Revision.get_parent") or
                            a[0] == "loop"):
                st.mon = a


def check_snapshot(ctx):
    e = "CephRBD.get_parent"
    m = Snap()
    I, out, exc = ctx.run(e, m, opaque={"Revision.get_parent", "RBDClient.exists"})
    for v, st in out:
        if v == NONE or st.facts.get(v) is False or st.mon == v:
            continue
        ctx.saw("parent with snapshot", f"{e}: {show(v)[:60]}")
        ok = st.mon is not None and v in uuid_of(st.mon)
        snap = any(t and mentions(a, v) and "snap_ls" in show(a) for a, t in st.facts.items())
        if not ok and not snap:
            ctx.finding("C12.snapshot", e, "the parent returned is not known to have a snapshot",
                        "", st.path())
        if not any(a[0] == "attr" and a[2] == "always_full" and not t
                   for a, t in st.facts.items()):
            ctx.finding("C12.full", e, "a parent is used although full backups are configured",
                        "", st.path())
        if not any(s[0] == "app" and s[1].endswith("Revision.get_parent") for s in subterms(v)):
            ctx.notes.append(f"{e}: returns {show(v)}")
    return m.asked


def given(f, asked):
    """The parameters of a function that a call sets to a constant, or leaves
    at a constant default."""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults)) if a.defaults else {}
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            defaults[x.arg] = d
    res = {n: C(d.value) for n, d in defaults.items() if isinstance(d, ast.Constant)}
    pos, kw = asked
    for n, v in [*zip(names, pos), *kw.items()]:
        res.pop(n, None)
        if is_c(v):
            res[n] = v
    return res


class Diff(Monitor):
    """CephRBD.diff"""

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return None

    @staticmethod
    def is_parent(r):
        return r[0] == "sym" and r[1] == "parent"

    @staticmethod
    def is_self(r):
        return r[0] == "attr" and r[2] == "revision"

    def names(self, ev, new, old, what, st):
        n, o = uuid_of(new), uuid_of(old)
        if not (len(n) == 1 and self.is_self(next(iter(n)))):
            self.ctx.finding("C12.names", self.entry, f"{what}: the new snapshot is {show(new)}, not "
                             "that of the revision backed up", ev.loc(), st.path())
        if not (len(o) == 1 and self.is_parent(next(iter(o)))):
            self.ctx.finding("C12.names", self.entry, f"{what}: the old snapshot is {show(old)}, not "
                             "that of the parent", ev.loc(), st.path())

    def event(self, ev, st, I):
        n = ev.name
        kw = ev.kw or {}
        if ev.kind == "call" and n.endswith("RBDClient.export_diff"):
            a = list(ev.args[1:])
            new = a[0] if a else kw.get("new", NONE)
            old = a[1] if len(a) > 1 else kw.get("old", NONE)
            self.ctx.saw("diff requested", f"{self.entry}: {ev.loc()}")
            self.names(ev, new, old, "diff requested", st)
        elif ev.kind == "call" and n.endswith(("RBDDiffV1.integrate", ".integrate")):
            a = list(ev.args[1:])
            f = a[1] if len(a) > 1 else kw.get("snapshot_from", NONE)
            t = a[2] if len(a) > 2 else kw.get("snapshot_to", NONE)
            self.ctx.saw("diff applied", f"{self.entry}: {ev.loc()}")
            self.names(ev, t, f, "diff applied", st)


class Cmd(Monitor):
    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name == "proc.spawn":
            its = None
            a = ev.args[0]
            its = st.heap.get((a, "#c"))
            if its is None:
                for s in subterms(a):
                    if s[0] == "list":
                        its = tuple(("v", x) for x in s[1])
            self.ctx.saw("rbd export-diff run", f"{self.entry}: {ev.loc()} {show(a)[:80]}")
            flat = flatten(a, st)
            if flat is None:
                return
            new, old = [("sym", x) for x in ("new", "old")]
            ix = {("new" if t[:2] == new else "old"): i for i, t in enumerate(flat)
                  if t[:2] in (new, old)}
            if C("--from-snap") in flat and set(ix) == {"new", "old"}:
                if flat.index(C("--from-snap")) + 1 != ix["old"]:
                    self.ctx.finding("C12.names", self.entry, "the diff is not made from the old "
                                     "snapshot", ev.loc(), st.path())
            else:
                self.ctx.finding("C12.names", self.entry, "the diff is not restricted to the changes "
                                 f"between the snapshots: {', '.join(show(x) for x in flat)}",
                                 ev.loc(), st.path())


def flatten(t, st):
    """Items of a list term; items that are unknown lists are left out."""
    its = st.heap.get((t, "#c"))
    if its is not None:
        return [i[1] for i in its if i[0] == "v"]
    if t[0] == "bin" and t[1] == "+":
        a, b = flatten(t[2], st), flatten(t[3], st)
        return None if a is None and b is None else (a or []) + (b or [])
    if t[0] in ("tuple", "list"):
        return list(t[1])
    return None


class Names(Monitor):
    """integrate: a record naming another snapshot is never accepted"""
    branches = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.checked = set()

    def init(self):
        return None

    def event(self, ev, st, I):
        if ev.kind == "fact":
            a, v = ev.args[0], cval(ev.args[1])
            if a[0] == "cmp" and a[1] in ("==", "is"):
                for x, y in ((a[2], a[3]), (a[3], a[2])):
                    if x[0] == "attr" and x[2] == "snapshot" and y[0] == "sym":
                        if v:
                            self.checked.add(y[1])
                        else:
                            st.mon = ev.loc()


TRUSTS = {"t": "TRUSTED", "v": "VERIFIED", "d": "DISTRUSTED"}
# revisions of a repository, oldest first: trust, server ("" = this one), does
# the snapshot exist, and the position of the revision a parent is looked for
# (none: it is not in the history)
WORLDS = [
    ((), None),
    ((("t", "", 1),), 0),
    ((("t", "", 1), ("t", "", 1)), 1),
    ((("t", "", 1), ("t", "", 1), ("t", "", 1)), 1),
    ((("v", "", 1), ("d", "", 1), ("t", "", 1)), 2),
    ((("d", "", 1), ("d", "", 1), ("t", "", 1)), 2),
    ((("t", "", 0), ("t", "", 1), ("t", "", 0), ("t", "", 1)), 3),
    ((("t", "", 1), ("t", "b", 1), ("t", "", 1)), 2),
    ((("t", "b", 1), ("v", "", 1), ("t", "b", 1), ("t", "", 1)), 3),
    ((("t", "", 0), ("t", "", 1)), 1),
    ((("v", "", 1), ("t", "", 0), ("t", "", 1)), 2),
    ((("v", "", 1), ("t", "", 0), ("t", "", 1), ("v", "", 1)), 2),
    ((("v", "", 1), ("t", "b", 1), ("t", "", 0), ("d", "", 1), ("t", "", 1), ("v", "", 1)), 4),
    ((("t", "", 1),), None),
]


def find_parent(ctx):
    """CephRBD.get_parent on abstract repositories."""
    e = "CephRBD.get_parent"
    trust = next((c.qual for c in ctx.p.class_by_qual.values() if c.qual.endswith("revision.Trust")), None)
    f = ctx.p.try_method("CephRBD", "get_parent")
    if trust is None or f is None or not ctx.p.try_method("RBDClient", "exists"):
        return
    ex = ctx.p.try_method("RBDClient", "exists").qual
    for (revs, pos), full in itertools.product(WORLDS, (False, True)):
        h = Heap()
        repo = h.of("backy.repository.Repository")
        objs = [h.of("backy.revision.Revision", uuid=C(f"uuid{i}"), server=C(srv), repository=repo,
                     timestamp=C(1000 + i), trust=("enum", trust, TRUSTS[t]),
                     tags=h.seq("set", [C("daily")]), stats=h.dict({"duration": C(3)}))
                for i, (t, srv, _) in enumerate(revs)]
        h.h[(repo, "history")] = h.seq("list", objs)
        h.h[(repo, "_by_uuid")] = h.dict({})
        h.h[(h_by(h, repo), "#k")] = tuple((C(f"uuid{i}"), o) for i, o in enumerate(objs))
        h.h[(h_by(h, repo), "#c")] = tuple(("v", C(f"uuid{i}")) for i in range(len(objs)))
        me = objs[pos] if pos is not None else h.of(
            "backy.revision.Revision", uuid=C("new"), server=C(""), repository=repo,
            timestamp=C(5000), trust=("enum", trust, "TRUSTED"))
        src = h.of("backy.rbd.CephRBD", always_full=C(full), revision=me, rbd=h.of("backy.rbd.rbd.RBDClient"),
                   pool=C("rbd"), image=C("vm"))

        def exists(I, fv, args, kw, st, node, fr):
            a = [x for x in [*args, *kw.values()] if is_c(x) and isinstance(x[2], str)]
            if not a:
                return None
            snap = a[0][2].rpartition("@backy-")[2]
            return [(C(any(snap == f"uuid{i}" and s for i, (_, _, s) in enumerate(revs))), st)]
        case = "revisions " + " ".join(
            TRUSTS[t].lower() + (f"@{srv}" if srv else "") + ("" if s else " without snapshot")
            + (" (this one)" if i == pos else "") for i, (t, srv, s) in enumerate(revs))
        m = Times()
        try:
            I, out, exc = ctx.run(f, m, st=h.state(m), self_val=src, subst={ex: exists},
                                  lookup=False, scan=False, max_steps=20000)
        except Budget:
            out, exc = [], []
        vals = {v for v, _ in out}
        if len(vals) != 1 or any(x[0] == "exc" and x[2] for x, _ in exc):
            ctx.saw("undecided", case)
            continue
        v, st = out[0]
        n = pos if pos is not None else len(revs)
        good = [] if full else [o for o, (t, srv, s) in zip(objs[:n], revs) if t != "d" and not srv and s]
        if v != NONE and v not in objs and v != me:
            ctx.saw("undecided", f"{case}: {show(v)[:60]}")
            continue
        ctx.saw("decided", case)
        if v == NONE or v in good:
            continue
        if full:
            ctx.finding("C12.full", e, f"{case}: a parent is used although full backups are configured",
                        "", st.path())
            continue
        if v == me or objs.index(v) >= n:
            why = "is not an earlier one"
        else:
            t, srv, s = revs[objs.index(v)]
            why = "is distrusted" if t == "d" else "is of another server" if srv else "has no snapshot"
        ctx.finding("C12.parent", e, f"{case}: the revision chosen as parent {why}", "", st.path())


def h_by(h, repo):
    return h.h[(repo, "_by_uuid")]


def check(ctx):
    ctx.rule("C12.parent", "on abstract repositories, a parent is an earlier trusted revision of the "
             "same server with a snapshot")
    find_parent(ctx)
    ctx.rule("C12.base", "a diff is applied to a copy of the revision it is computed against")
    ctx.rule("C12.full", "without a parent, backups start from nothing")
    ctx.rule("C12.trusted", "a parent is not distrusted")
    ctx.rule("C12.local", "a parent was made by the same server")
    ctx.rule("C12.before", "a parent precedes the revision")
    ctx.rule("C12.snapshot", "a parent has a snapshot in the source")
    ctx.rule("C12.names", "the diff is made and applied between the snapshots of parent and revision")
    e = "RBDSource.backup"
    m = Base(ctx, e)
    ctx.run(e, m, opaque=BACKUP_OPAQUE)
    e = "Revision.get_parent"
    f = ctx.p.method("Revision", "get_parent")
    calls = {tuple(sorted(given(f, a).items())) for a in check_snapshot(ctx)}
    for args in sorted(calls, key=repr) or [tuple(sorted(given(f, ((), {})).items()))]:
        m = Parent(ctx, e)
        I, out, exc = ctx.run(e, m, args=dict(args))
        m.done(out)
    e = "CephRBD.diff"
    m = Diff(ctx, e)
    ctx.run(e, m, opaque={"RBDClient.export_diff", "RBDDiffV1.integrate"} | FILE)
    e = "RBDClient.export_diff"
    ctx.run(e, Cmd(ctx, e), opaque={"RBDDiffV1.__init__"})
    e = "RBDDiffV1.integrate"
    m = Names(ctx, e)
    I, out, exc = ctx.run(e, m, opaque={"RBDDiffV1.read_record", "punch_hole"})
    for v, st in out:
        if st.mon:
            ctx.finding("C12.names", e, "a diff naming another snapshot is accepted", st.mon,
                        st.path())
    for p in ("snapshot_from", "snapshot_to"):
        if p in m.checked:
            ctx.saw("snapshot name checked", f"{e}: {p}")
        else:
            ctx.finding("C12.names", e + ": " + p, "the snapshot named in the diff is not compared "
                        "with the one expected")
    ctx.need("diff", 1)
    ctx.need("full", 1)
    ctx.need("diff applied", 1)
