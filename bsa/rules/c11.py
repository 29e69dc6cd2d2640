"""Distrusted revisions: written, verified chunk by chunk, and forced."""
import ast

from ..common import local_events
from .util import *
from .c06 import FILE
from .c10 import BACKUP_OPAQUE, rev_of

READ = ("Chunk._read_existing", "Chunk.read")


def trust_is(t, name):
    return t[0] == "enum" and t[1].endswith("Trust") and t[2] == name


def atom_trust(a, name):
    """The revision an atom says has trust `name`, and for which value."""
    if a[0] == "cmp" and a[1] in ("==", "is"):
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if x[0] == "attr" and x[2] == "trust" and trust_is(y, name):
                return x[1]
    return None


def complete_local(a, v):
    """Atoms that hold for every complete local revision."""
    if a[0] == "attr" and a[2] == "server":
        return not v
    if a[0] == "cmp" and a[1] == "in" and a[2] == C("duration"):
        return v
    if a[0] == "cmp" and a[1] in ("==", "is") and any(
            x[0] == "attr" and x[2] == "server" for x in a[2:4]):
        return True
    return False


class Distrust(Monitor):
    """state: (revision of the iteration, marked, written, an iteration of the
    loop did not mark / write, all marked, all written)"""
    loops = True

    def __init__(self, ctx, entry, func):
        self.ctx, self.entry = ctx, entry
        self.param = func.params()[1] if len(func.params()) > 1 else None

    def init(self):
        return (None, False, False, False, False, False, False)

    def event(self, ev, st, I):
        cur, marked, written, nomark, nowrite, allm, allw = st.mon
        mine = False
        if ev.kind in ("iter", "iterend", "loopend", "loop"):
            root, _, partial = root_of(ev.args[0])
            mine = root[0] == "sym" and root[1] == self.param and not partial
        if ev.kind == "loop" and mine:
            nomark = nowrite = False
        elif ev.kind == "iter" and mine:
            cur, marked, written = ev.args[1], False, False
            self.ctx.saw("revisions distrusted", f"{self.entry}: {ev.loc()}")
        elif ev.kind == "setattr" and ev.name == "trust" and ev.args[0] == cur \
                and trust_is(ev.args[1], "DISTRUSTED"):
            marked, written = True, False
        elif ev.kind == "call" and ev.name.endswith("Revision.write_info") and ev.args[0] == cur:
            written = True
        elif ev.kind == "iterend" and mine:
            if not marked and any(atom_trust(a, "DISTRUSTED") == cur and v
                                  for a, v in st.facts.items()):
                marked = written = True
            nomark = nomark or not marked
            nowrite = nowrite or not written
            cur = None
        elif ev.kind == "loopend" and mine and ev.name == "end":
            if not nomark:
                allm, allw = True, False
            if not nowrite and allm:
                allw = True
            cur = None
        st.mon = (cur, marked, written, nomark, nowrite, allm, allw)

    def done(self, out):
        for v, st in out:
            allm, allw = st.mon[-2:]
            if not allm:
                self.ctx.finding("C11.distrust", self.entry, "not every revision given is marked "
                                 "as distrusted", "", st.path())
            elif not allw:
                self.ctx.finding("C11.distrust", self.entry, "the mark is not written to the "
                                 "metadata of every revision given", "", st.path())


class Verify(Monitor):
    """state: (error, current hash, read, skipped, covered, files, removed)"""
    loops = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.sites = 0
        self.inside = set()         # the functions passed through

    def init(self):
        return (None, None, False, None, (), (), False)

    def event(self, ev, st, I):
        err, cur, read, skip, cov, files, gone = st.mon
        n = ev.name
        if ev.kind == "iter":
            cur, read = ev.args[1], False
        elif ev.kind == "loop":
            skip = None
        elif ev.kind == "iterend":
            if ev.args[1] == cur and not read and not any(
                    v and a[0] == "cmp" and a[1] == "in" and a[2] == cur
                    and self.trusted(a[3], st, files) for a, v in st.facts.items()):
                skip = ev.loc()
        elif ev.kind == "loopend":
            if n == "end" and not skip:
                cov = cov + ((ev.args[0]),) if ev.args[0] not in cov else cov
            cur = None
        elif ev.kind == "call" and n.endswith(READ) and cur is not None:
            h = st.heap.get((ev.args[0], "hash"))
            if h == cur or (h is not None and cur in subterms(h)):
                self.ctx.saw("chunk read", f"{self.entry}: {ev.loc()}")
                read = True
        elif ev.kind == "handler" and read and not err:
            err = ev.loc()
        elif ev.kind == "new" and n.endswith(".File") and len(ev.args) > 1:
            r = next((s[1] for s in subterms(ev.args[1]) if s[0] == "attr" and s[2] == "uuid"), None)
            ok = any(atom_trust(a, "VERIFIED") == r and v for a, v in st.facts.items())
            files = tuple(x for x in files if x[0] != ev.args[0]) + ((ev.args[0], r, ok),)
        elif ev.kind == "enter":
            self.inside.add(n.removeprefix("repo:"))
            gone = gone or n.endswith("Revision.remove")
        elif ev.kind == "setattr" and n == "trust" and trust_is(ev.args[1], "VERIFIED"):
            self.verified(ev, st, err, cov, files)
        st.mon = (err, cur, read, skip, cov, files, gone)

    def trusted(self, t, st, files):
        """Are all members of t chunks of verified revisions?  (unknown: yes)"""
        fs = {f: (r, ok) for f, r, ok in files}
        for f in self.members(t, st):
            if f in fs and not fs[f][1]:
                return False
        return True

    def members(self, t, st, depth=0):
        """The File objects whose chunk hashes t may contain."""
        res = set()
        for s in subterms(t):
            if s[0] == "obj" and s[2].endswith(".File"):
                res.add(s)
            elif s[0] == "obj" and s[2] in ("set", "list", "dict") and depth < 4:
                for i in st.heap.get((s, "#c"), ()):
                    for x in i[1:]:
                        if isinstance(x, tuple):
                            res |= self.members(x, st, depth + 1)
        return res

    def covers(self, t, st, files):
        """(files whose chunks t contains all of, excluded sets)"""
        if t[0] == "obj":
            fs, ex = set(), []
            for i in st.heap.get((t, "#c"), ()):
                if i[0] in ("all", "forall"):
                    a, b = self.covers(i[1], st, files)
                    fs |= a
                    ex += b
            return fs, ex
        if t[0] == "bin" and t[1] == "-":
            a, b = self.covers(t[2], st, files)
            return a, b + [t[3]]
        if t[0] == "app" and t[1] == ".difference" and t[2]:
            a, b = self.covers(t[2][0], st, files)
            return a, b + list(t[2][1:])
        if t[0] == "app" and t[1] == ".values" and t[2] and t[2][0][0] == "attr" \
                and t[2][0][2] == "_mapping":
            return {t[2][0][1]}, []
        root, conds, partial = root_of(t)
        if root == t:
            return (set(), []) if t[0] not in ("sym", "loop") else (None, [])
        if partial:
            return set(), []
        ex = []
        for a, v in conds.items():
            if a[0] == "cmp" and a[1] == "in" and not v:
                ex.append(a[3])
            else:
                return set(), []
        a, b = self.covers(root, st, files)
        return a, b + ex

    def verified(self, ev, st, err, cov, files):
        self.sites += 1
        self.ctx.saw("marked as verified", f"{self.entry}: {ev.loc()}")
        if err:
            self.ctx.finding("C11.errors", self.entry, "the revision is marked as verified "
                             f"although reading a chunk failed ({err})", ev.loc(), st.path())
        fs = {f: (r, ok) for f, r, ok in files}
        good = unknown = False
        for t in cov:
            a, ex = self.covers(t, st, files)
            if a is None:
                unknown = True
                continue
            for f in a:
                r, ok = fs.get(f, (None, False))
                if r == ev.args[0]:
                    bad = [x for x in ex if not self.trusted(x, st, files)]
                    if bad:
                        self.ctx.finding("C11.all", self.entry, "chunks of revisions that were "
                                         "never verified are left out", ev.loc(), st.path())
                    good = True
        if not good and not unknown and not err:
            self.ctx.finding("C11.all", self.entry, "the revision is marked as verified although "
                             "not every chunk of it was read", ev.loc(), st.path())

    def done(self, out):
        for v, st in out:
            err, _, _, _, _, _, gone = st.mon
            if err and not gone:
                self.ctx.finding("C11.failed", self.entry, "a revision with a broken chunk "
                                 f"({err}) is not removed", err, st.path())


class Force(Monitor):
    """state: (force_writes, reason not to force, an iteration did not look)"""
    branches = True
    loops = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return (None, False, False)

    def narrow(self, conds, partial, ev, st):
        extra = [x for x, y in conds.items()
                 if not atom_trust(x, "DISTRUSTED") and not complete_local(x, y)]
        if extra or partial:
            self.ctx.finding("C11.force", self.entry, "not every distrusted complete local "
                             f"revision counts: {partial or ', '.join(show(x) for x in extra)}",
                             ev.loc(), st.path())

    def event(self, ev, st, I):
        val, no, blind = st.mon
        if ev.kind == "setattr" and ev.name == "force_writes":
            val = ev.args[1]
        elif ev.kind == "loop":
            blind = False
        elif ev.kind == "iterend":
            if not any(atom_trust(a, "DISTRUSTED") == ev.args[1] and not v
                       for a, v in st.facts.items()):
                blind = True
        elif ev.kind == "loopend" and ev.name == "end":
            root, conds, partial = root_of(ev.args[0])
            if is_history(root) and not blind:
                no = True
                self.narrow(conds, partial, ev, st)
        elif ev.kind == "fact":
            a, v = ev.args[0], cval(ev.args[1])
            r = any_distrusted(a)
            if r and not v:
                no = True
                self.narrow(r[0], root_of(r[1])[2], ev, st)
            if not v and a[0] == "cmp" and a[1] == "in" and a[2] == C("w") or \
                    v and a[0] == "attr" and a[2] == "closed":
                no = True
        st.mon = (val, no, blind)


def any_distrusted(a):
    """Is the atom `some revision is distrusted`?  -> conditions or None"""
    for s in subterms(a):
        if s[0] == "comp":
            for conds, el in s[2]:
                if any(atom_trust(x, "DISTRUSTED") for x, _ in conds) or \
                        atom_trust(el, "DISTRUSTED"):
                    return dict(conds), s
    return None


def check_open(ctx):
    e = "RBDSource.open"
    f = ctx.p.method("RBDSource", "open")
    for mode in ("wb", "r+b", "w+b"):
        m = Force(ctx, e)
        I, out, exc = ctx.run(e, m, args={"mode": C(mode)}, opaque={"File.__init__"})
        ok = False
        for v, st in out:
            ctx.saw("opened for writing", f"{mode}: {show(v)[:50]}")
            val, no, _ = st.mon
            if val == TRUE:
                ok = True
            elif not no and not (val and any_distrusted(val)):
                ctx.finding("C11.force", e, f"opened with mode {mode!r}, chunks already in the "
                            "store are reused although revisions may be distrusted", "", st.path())
            else:
                ok = True
        if not ok:
            ctx.finding("C11.force", e, f"opened with mode {mode!r}, writing is never forced")


class Rename(Monitor):
    """state: (published, nothing to do or already seen, forced writes denied)"""
    branches = True

    def init(self):
        return (False, False, False)

    def event(self, ev, st, I):
        done, skip, unforced = st.mon
        if ev.kind == "call" and ev.name in ("fs.rename", "fs.link"):
            done = True
        elif ev.kind == "fact":
            a, v = ev.args[0], cval(ev.args[1])
            if a[0] == "attr" and a[2] == "clean" and v:
                skip = True
            elif a[0] == "cmp" and a[1] == "in" and a[3][0] == "attr" and a[3][2] == "seen" and v:
                skip = True
            elif a[0] == "attr" and a[2] == "force_writes" and not v:
                unforced = True
        st.mon = (done, skip, unforced)


def check_flush(ctx):
    e = "Chunk.flush"
    I, out, exc = ctx.run(e, Rename())
    for v, st in out:
        ctx.saw("flush", f"{e}: {show(v)[:60]}")
        if not any(st.mon):
            ctx.finding("C11.write", e, "with forced writes a chunk that exists in the store is "
                        "not written again", "", st.path())


class After(Monitor):
    """state: (completed, distrusted revision found, verify called, in a for loop)"""
    loops = True
    branches = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.n = 0

    def init(self):
        return (False, None, False, False)

    def done(self, out):
        for v, st in out:
            if st.mon[1] and not st.mon[2]:
                self.ctx.finding("C11.after", self.entry, "ends without verifying the distrusted "
                                 f"revision {show(st.mon[1])}", "", st.path())

    def event(self, ev, st, I):
        if ev.kind == "setitem" and ev.args[1] == C("duration"):
            st.mon = (True,) + st.mon[1:]
        elif ev.kind == "fact" and cval(ev.args[1]):
            r = atom_trust(ev.args[0], "DISTRUSTED")
            if r is not None and r[0] == "elem" and st.mon[3]:
                st.mon = (st.mon[0], r) + st.mon[2:]
        elif ev.kind == "call" and ev.name.endswith(("Repository.scan", "CephRBD.diff", "CephRBD.full",
                                                     "CephRBD.verify", "Repository.distrust", "sync")):
            st.mon = (st.mon[0], None) + st.mon[2:]     # the backup itself
        elif ev.kind == "iter":
            st.mon = st.mon[:3] + (isinstance(ev.node, ast.stmt),)
        elif ev.kind == "call" and ev.name.endswith("RBDSource.verify"):
            st.mon = st.mon[:2] + (True,) + st.mon[3:]
            if not st.mon[0]:
                return
            self.n += 1
            rev = ev.args[1] if len(ev.args) > 1 else (ev.kw or {}).get("revision", NONE)
            self.ctx.saw("verified after a backup", f"{self.entry}: {ev.loc()}")
            extra = [a for a, v in st.facts.items() if rev[0] == "elem" and mentions(a, rev)
                     and not complete_local(a, v) and not (atom_trust(a, "DISTRUSTED") and v)]
            if extra:
                self.ctx.finding("C11.after", self.entry, "only some distrusted revisions are "
                                 f"verified: {', '.join(show(a) for a in extra)}",
                                 ev.loc(), st.path())


class Broken(Monitor):
    """state: pending failure of the backend"""
    loops = True
    branches = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.n = self.sites = 0

    def init(self):
        return None

    def event(self, ev, st, I):
        if ev.kind == "handler" and "BackendException" in ev.name + ast.unparse(ev.node.type or ast.Constant("")):
            self.sites += 1
            st.mon = ev.loc()
        elif ev.kind == "call" and ev.name.endswith("Repository.distrust"):
            self.n += 1
            a = [x for x in ev.args[1:] + tuple((ev.kw or {}).values()) if not is_c(x)][:1]
            if not a or not st.mon:
                return
            st.mon = None
            root, conds, partial = root_of(a[0])
            its = st.heap.get((root, "#c"))
            if its is not None and len(its) == 1 and its[0][0] in ("all", "v") and elems(its[0][1]):
                r2, c2, p2 = root_of(next(iter(elems(its[0][1])))[1])
                root, conds, partial = r2, {**conds, **c2}, partial or p2
            bad = [x for x, v in conds.items() if not complete_local(x, v)]
            if partial or bad or root[0] == "app" and root[1].endswith("find_revisions") or \
                    its and all(i[0] == "v" and not elems(i[1]) for i in its):
                what = f"a {partial} of the revisions is" if partial else f"only revisions with {show(bad[0])} are" if bad \
                    else f"{show(root)} is"
                self.ctx.finding("C11.broken", self.entry, f"the backend cannot be relied on, but {what} distrusted",
                                 ev.loc(), st.path())

    def done(self, out):
        for v, st in out:
            if st.mon:
                self.ctx.finding("C11.broken", self.entry, "the backend cannot be relied on, but the revisions stay "
                                 "trusted", st.mon, st.path())
        if not self.n:
            self.ctx.finding("C11.broken", self.entry, "no failure of the backend makes the revisions distrusted")


def check(ctx):
    ctx.rule("C11.distrust", "every revision given is marked as distrusted, on disk")
    ctx.rule("C11.set", "only verification marks a revision as verified; trust is not restored "
             "otherwise")
    ctx.rule("C11.all", "all chunks not known from verified revisions were read before")
    ctx.rule("C11.errors", "no chunk failed to read")
    ctx.rule("C11.failed", "a revision with a broken chunk is removed")
    ctx.rule("C11.force", "with a distrusted revision around, files are written in forced mode")
    ctx.rule("C11.write", "in forced mode every chunk is written, whether it exists or not")
    ctx.rule("C11.after", "a backup is followed by the verification of a distrusted revision")

    e = "Repository.distrust"
    f = ctx.p.method("Repository", "distrust")
    m = Distrust(ctx, e, f)
    I, out, exc = ctx.run(e, m, opaque={"Revision.write_info"})
    m.done(out)

    # who sets the trust of a revision: methods of Revision that only mark their own revision are
    # followed to those who call them
    marks, sets, todo = {"backy.revision.Revision.verify"}, {}, []
    for fn, ev in local_events(ctx.p, lambda ev: ev.kind == "setattr" and ev.name == "trust"
                               or ev.kind == "call" and ev.name.startswith("repo:")):
        if ev.kind == "call":
            todo.append((fn, ev.name[5:]))
            continue
        ctx.saw("trust set", f"{fn.qual}: {ev.loc()}")
        if trust_is(ev.args[1], "VERIFIED"):
            if fn.cls and fn.cls.name == "Revision" and fn.name != "__init__":
                marks.add(fn.qual)
            else:
                sets[fn.qual] = fn
        elif trust_is(ev.args[1], "TRUSTED") and ev.args[0][0] != "obj" \
                and not fn.qual.endswith("__init__"):
            ctx.at("C11.set", ev, _S, "the trust of a revision is restored without verification",
                   fn.qual)
    n = 0
    while n != len(marks):
        n = len(marks)
        marks |= {fn.qual for fn, q in todo if q in marks and fn.cls
                  and fn.cls.name == "Revision"}
    callers = {**sets, **{fn.qual: fn for fn, q in todo if q in marks and fn.qual not in marks}}
    sites, inside = 0, set()
    main = ctx.p.method("RBDSource", "verify")
    for q, fn in [(main.qual, main)] + sorted(callers.items()):
        if q in inside:
            continue
        m = Verify(ctx, q)
        I, out, exc = ctx.run(fn, m, opaque=FILE | set(READ) | {
            "File.__init__", "Revision.write_info"})
        m.done(out)
        inside |= m.inside | {q}
        sites += m.sites
        if not m.sites:
            ctx.notes.append(f"{q} calls Revision.verify on no path analysed")
    if not sites:
        ctx.finding("C11.set", "RBDSource.verify", "no verification ever marks a revision as "
                    "verified")
    check_open(ctx)
    check_flush(ctx)
    e = "RBDSource.backup"
    m = After(ctx, e)
    m.done(ctx.run(e, m, opaque=BACKUP_OPAQUE)[1])
    if not m.n:
        ctx.finding("C11.after", e, "distrusted revisions are not verified after a backup")
    ctx.rule("C11.broken", "a backup the backend failed in makes all local revisions distrusted")
    m = Broken(ctx, e)
    m.done(ctx.run(e, m, opaque=BACKUP_OPAQUE | {"Repository.distrust"})[1])
    ctx.rule("C11.local", "a verification looks at images of this server's revisions only")
    ctx.run("RBDSource.verify", Opened(ctx, "C11.local", "RBDSource.verify"), opaque={"RBDSource.open"})
    ctx.need("chunk read", 1)
    ctx.need("trust set", 1)


class _S:
    @staticmethod
    def path():
        return ()
