"""What the daemon deletes on its own: abandoned and pending backup directories."""
from .c16 import num
from .abandoned import old, pending
from .util import *

RECENT = "has_recent_changes"
DAYS93 = 3 * 31 * 24 * 3600
DELETE = {"fs.rmtree", "fs.unlink", "fs.rmdir", "fs.rename", "fs.move", "fs.remove"}


def entry_of(t):
    """The directory entry a path (or the entry itself) stands for"""
    while True:
        if t[0] == "attr" and t[2] in ("path",):
            t = t[1]
        elif t[0] in ("conv", "typed"):
            t = t[2] if t[0] == "conv" else t[1]
        elif t[0] == "join" and t[2][0] == "attr" and t[2][2] == "name" and t[2][1][0] == "elem":
            t = t[2][1]
        elif t[0] == "join" and t[2][0] == "elem":
            t = t[2]
        elif t[0] == "app" and t[1] in ("os.fspath", "str", "pathlib.Path", "fs.abspath") and t[2]:
            t = t[2][0]
        else:
            return t


def kind_fact(ev):
    """[("dir"|"link"|"exists", subject, value)] of a fact"""
    a, v = ev.args[0], ev.args[1] == TRUE
    if a[0] != "app" or not a[2]:
        return []
    n = a[1].split(".")[-1]
    kw = dict(a[3]) if len(a) > 3 and a[3] else {}
    x = a[2][0]
    if n in ("isdir", "is_dir"):
        r = [("dir", x, v)]
        if kw.get("follow_symlinks") == FALSE and v:
            r.append(("link", x, False))
        return r
    if n in ("islink", "is_symlink"):
        return [("link", x, v)]
    if n in ("exists", "is_file", "isfile", "lexists"):
        return [("exists", x, v)]
    if n == "S_ISDIR":
        # of an lstat, or of a stat that does not follow links
        return [("dir", s, v) for y in subterms(x) if y[0] == "app" and y[2]
                for s in y[2][:1]] + ([("link", y[2][0], False) for y in subterms(x) if v and
                                       y[0] == "app" and y[1] in ("fs.lstat", "fs.stat")])
    return []


def age(ev):
    """(subject, known to be older than, reference) of a comparison of a modification time"""
    a, v = ev.args[0], ev.args[1] == TRUE
    if a[0] != "cmp" or a[1] not in ("<", "<=", ">", ">="):
        return None
    l, r = a[2], a[3]
    for t, other, left in ((l, r, True), (r, l, False)):
        st = [s for s in subterms(t) if s[0] == "attr" and s[2] in ("st_mtime", "st_ctime",
                                                                 "st_mtime_ns", "st_ctime_ns")]
        if st:
            less = (a[1] in ("<", "<=")) == left
            x = st[0][1]
            while x[0] == "typed":
                x = x[1]
            return (x[2][0] if x[0] == "app" and x[2] else x), less == v, other
    return None


class Round(Monitor):
    """Common to both loops of the daemon. state: (slept, facts, done)"""
    branches = True
    loops = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return (True, frozenset(), frozenset())

    def report(self, rule, msg, loc, st):
        self.ctx.finding(rule, self.entry, msg, loc, st.path())

    def member(self, t):
        """t: an entry of the base directory"""
        x = entry_of(t)
        return x if x[0] == "elem" and any(
            s[0] == "attr" and s[2] == "base_dir" for s in subterms(x[1])) else None

    def event(self, ev, st, I):
        slept, facts, done = st.mon
        if ev.kind == "fact":
            for k, x, v in kind_fact(ev):
                if k == "exists":
                    facts = facts | {(k, x, v)}
                elif (e := entry_of(x)) is not None:
                    facts = facts | {(k, e, v)}
            a, v = ev.args[0], ev.args[1] == TRUE
            if a[0] == "app" and a[1].endswith("." + RECENT):
                facts = facts | {("recent", entry_of(a[2][0]), v)}
            if a[0] == "cmp" and a[1] == "in" and a[2][0] == "attr" and a[2][2] == "name" and any(
                    s[0] == "attr" and s[2] == "jobs" for s in subterms(a[3])):
                facts = facts | {("job", a[2][1], v)}
            elif a[0] == "app" and a[1] == ".get" and any(
                    s[0] == "attr" and s[2] == "jobs" for s in subterms(a[2][0])) \
                    and a[2][1][0] == "attr":
                facts = facts | {("job", a[2][1][1], v)}
        elif ev.kind == "iter" and ev.args[1][0] == "elem":
            x = ev.args[1]
            if self.member(x) == x:
                facts = frozenset(f for f in facts if not mentions(f[1], x))
                done = done - {x}
        elif ev.kind == "iterend":
            x = ev.args[1]
            if self.member(x) == x and not self.handled(ev):
                self.skipped(x, facts, done, ev, st)
        elif ev.kind == "loop":
            if any(s[0] == "app" and s[1] == "fs.scandir" for s in subterms(ev.args[0])):
                self.ctx.saw("scans", f"{self.entry}: {show(ev.args[0])}")
                if not slept:
                    self.report("C24.wait", "the base directory is scanned again without waiting",
                                ev.loc(), st)
                slept = False
        elif ev.kind == "call" and ev.name.endswith(("asyncio.sleep", ".wait_for", ".wait",
                                                     "delay_or_event")):
            slept = True
        elif ev.kind == "call":
            done = done | self.act(ev, facts, st)
        st.mon = (slept, facts, done)

    @staticmethod
    def handled(ev):
        return False

    def end(self, out, exc):
        for v, st in out:
            self.report("C24.goes-on", "the loop ends", "", st)
        for e, st in exc:
            n = e[1]
            if not n.endswith(("CancelledError", "KeyboardInterrupt", "SystemExit", "GeneratorExit",
                               "BaseException")):
                self.report("C24.goes-on", f"an error ({n}) ends the loop", "", st)


def known(facts, k, x):
    return next((v for kk, y, v in facts if kk == k and y == x), None)


class Old(Round):
    def act(self, ev, facts, st):
        if ev.name not in DELETE:
            return frozenset()
        x = self.member(ev.args[0])
        self.ctx.saw("removals", f"{self.entry}: {ev.loc()}")
        if x is None:
            self.report("C24.old", f"{show(ev.args[0])} is removed, which is no directory in the base "
                        "directory", ev.loc(), st)
            return frozenset()
        for k, want, why in (("dir", True, "is not known to be a directory"),
                             ("link", False, "may be a symbolic link"),
                             ("recent", False, "may have been changed recently")):
            if known(facts, k, x) != want:
                self.report("C24.old", f"{show(ev.args[0])} is removed, but {why}", ev.loc(), st)
        return frozenset([x])

    def skipped(self, x, facts, done, ev, st):
        if x not in done and known(facts, "dir", x) and known(facts, "link", x) is False and \
                known(facts, "recent", x) is False:
            self.report("C24.old", "a directory without recent changes is not removed", ev.loc(), st)

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name.endswith("." + RECENT):
            ref = ev.args[1] if len(ev.args) > 1 else (ev.kw or {}).get("reference_time", NONE)
            self.ctx.saw("ages", f"{self.entry}: {show(ref)}")
            k = const_age(ref)
            if k is not None and k < DAYS93:
                self.report("C24.age", f"directories count as abandoned after {k / 86400:g} days "
                            "instead of 93", ev.loc(), st)
        super().event(ev, st, I)


def const_age(t):
    """now - t in seconds, if constant"""
    if t[0] in ("typed",):
        return const_age(t[1])
    if t[0] == "app" and (t[1].endswith("time.time") or t[1].endswith(".now")):
        return 0
    if t[0] == "bin" and t[1] in ("-", "+"):
        a = const_age(t[2])
        try:
            b = num(t[3], {})
        except Exception:
            return None
        if a is not None:
            return a + b if t[1] == "-" else a - b
    return None


class Pending(Round):
    def act(self, ev, facts, st):
        if ev.name in DELETE:
            self.report("C24.pending", f"{show(ev.args[0])} is removed", ev.loc(), st)
        if not ev.name.endswith((".run_gc", "CmdLineSource.gc")) or not ev.args:
            return frozenset()
        self.ctx.saw("collections", f"{self.entry}: {ev.loc()}")
        job = ev.args[0]
        src = st.heap.get((job, "source"), job)
        xs = {e for s in reach(src, st) for e in [self.member(s)] if e is not None}
        if job[0] == "obj" and ev.name.endswith(".run_gc") and (job, "source") not in st.heap:
            self.report("C24.pending", "the job has no source", ev.loc(), st)
            return frozenset()
        if not xs:
            self.report("C24.pending", "garbage is collected for a source that is not that of the "
                        f"directory ({show(src)})", ev.loc(), st)
        for x in xs:
            if known(facts, "job", x) is not False:
                self.report("C24.pending", "garbage is collected beside the job of the directory, if "
                            "there is one", ev.loc(), st)
            if known(facts, "dir", x) is not True or known(facts, "link", x) is not False:
                self.report("C24.pending", "the entry is not known to be a directory", ev.loc(), st)
            if not self.marker(facts, x, True):
                self.report("C24.pending", "garbage is collected without a pending mark", ev.loc(), st)
        return frozenset(xs)

    def marker(self, facts, x, val):
        for k, y, v in facts:
            if k == "exists" and y[0] == "join" and entry_of(y[1]) == x and is_str(y[2]):
                self.ctx.saw("marker", y[2][2])
                if v == val:
                    return True
        return False

    def skipped(self, x, facts, done, ev, st):
        if x not in done and known(facts, "job", x) is False and known(facts, "dir", x) and \
                known(facts, "link", x) is False and self.marker(facts, x, True):
            self.report("C24.pending", "a directory with a pending mark is skipped", ev.loc(), st)


class Changes(Monitor):
    """has_recent_changes(path, ref).
    state: (old, dir, link, bad, complete, stated, cur): complete: a loop over all entries looked
    into each; stated: a loop looked at the time of each; cur: (loop, all looked into, all stated,
    this looked into, this stated, this is no directory)"""
    branches = True
    loops = True

    def __init__(self, ctx, entry, path, ref):
        self.ctx, self.entry, self.p, self.ref = ctx, entry, path, ref
        self.recursive = False
        self.worklist = False

    def init(self):
        return (False, None, None, False, False, False, None)

    def report(self, rule, msg, loc, st):
        self.ctx.finding(rule, self.entry, msg, loc, st.path())

    def listing(self, t):
        return any(s[0] == "app" and s[1] in ("fs.scandir", "fs.walk", "fs.glob") and s[2]
                   and self.is_path(s[2][0]) for s in subterms(t))

    def is_path(self, t):
        while t[0] in ("typed", "conv") or t[0] == "app" and t[1] in ("pathlib.Path", "os.fspath",
                                                                   "str") and t[2]:
            t = t[1] if t[0] == "typed" else t[2] if t[0] == "conv" else t[2][0]
        return t == self.p

    def is_entry(self, t):
        x = entry_of(t)
        return x[0] == "elem" and self.listing(x[1])

    def event(self, ev, st, I):
        old, isdir, link, bad, complete, stated, cur = st.mon
        if ev.kind == "fact":
            for k, x, v in kind_fact(ev):
                if self.is_path(x):
                    if k == "dir":
                        isdir = v
                    elif k == "link":
                        link = v
                elif self.is_entry(x) and cur is not None and (
                        k == "dir" and not v or k == "link" and v):
                    cur = cur[:5] + (True,)
            g = age(ev)
            if g is not None:
                self.ctx.saw("times", f"{self.entry}: {ev.loc()}")
                if g[2] != self.ref and not any(
                        s == self.ref for s in subterms(g[2])):
                    self.report("C24.recent", f"times are compared with {show(g[2])}", ev.loc(), st)
                if self.is_path(g[0]):
                    old = old or g[1]
                    bad = bad or not g[1]
                elif self.is_entry(g[0]):
                    if g[1] and cur is not None:
                        cur = cur[:4] + (True,) + cur[5:]
                    bad = bad or not g[1]
            a, v = ev.args[0], ev.args[1] == TRUE
            if a[0] == "app" and a[1].endswith("." + RECENT):
                bad = bad or v
                if not v and cur is not None and self.is_entry(a[2][0]):
                    cur = cur[:3] + (True,) + cur[4:]
        elif ev.kind == "call" and ev.name.endswith("." + RECENT):
            self.recursive = True
            self.ctx.saw("recursion", ev.loc())
            if len(ev.args) > 1 and ev.args[1] != self.ref:
                self.report("C24.recent", f"entries are judged by {show(ev.args[1])}", ev.loc(), st)
        elif ev.kind == "call" and ev.name in ("fs.stat", ".stat"):
            if (ev.kw or {}).get("follow_symlinks") != FALSE and (
                    self.is_path(ev.args[0]) and link is not False or self.is_entry(ev.args[0])):
                self.report("C24.recent", "the time looked at is that of the target of a symbolic link",
                            ev.loc(), st)
        elif ev.kind == "call" and ev.name in ("fs.scandir", "fs.walk"):
            if not self.is_path(ev.args[0]):
                self.worklist = True
            elif link is not False or not isdir:
                self.report("C24.recent", "what is listed may be a symbolic link", ev.loc(), st)
        elif ev.kind == "loop" and self.listing(ev.args[0]) and not any(
                s[0] == "slice" for s in outer(ev.args[0])) and root_of(ev.args[0])[2] is None:
            cur = (ev.args[0], True, True, False, False, False)
        elif ev.kind == "iter" and cur is not None and ev.args[0] == cur[0]:
            cur = cur[:3] + (False, False, False)
        elif ev.kind == "iterend" and cur is not None and ev.args[0] == cur[0]:
            cur = (cur[0], cur[1] and (cur[3] or cur[5] and (cur[4] or stated)),
                   cur[2] and (cur[4] or cur[3]), False, False, False)
        elif ev.kind == "loopend" and cur is not None and ev.args[0] == cur[0]:
            if ev.name != "break":
                complete, stated = complete or cur[1], stated or cur[2]
            cur = None
        st.mon = (old, isdir, link, bad, complete, stated, cur)

    def end(self, out):
        no = 0
        for v, st in out:
            old, isdir, link, bad, complete, stated, cur = st.mon
            if v == TRUE:
                continue
            if isdir is not False and not link:
                no += 1
            if v != FALSE:
                if v[0] == "c":
                    self.report("C24.recent", f"the answer is {show(v)}", "", st)
                if not any(s[0] == "app" and s[1].endswith("." + RECENT) for s in outer(v)) or any(
                        s[0] == "comp" for s in subterms(v)):
                    continue
            self.ctx.saw("answers", "no recent changes")
            if bad:
                self.report("C24.recent", "a recent change is ignored", "", st)
            elif not old and not self.worklist:
                self.report("C24.recent", "the time of the path itself is not looked at", "", st)
            elif not (isdir is False or link or complete) and not self.worklist:
                self.report("C24.recent", "not every entry of the directory is looked into", "", st)
        if not no:
            self.ctx.finding("C24.recent", self.entry, "everything has recent changes", "")


class Marks(Monitor):
    """state: (cleared, )"""

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.names = set()

    def init(self):
        return (False, False)

    def event(self, ev, st, I):
        cleared, purged = st.mon
        if ev.kind == "call" and ev.name in ("fs.touch", "fs.unlink", "fs.writefile") and \
                ev.args[0][0] == "join" and is_str(ev.args[0][2]) and \
                not ev.args[0][2][2] in (".purge", ".backup"):
            self.names.add((ev.name, ev.args[0]))
            self.ctx.saw("marks", f"{self.entry}: {show(ev.args[0])}")
            if ev.name == "fs.unlink":
                cleared = True
        elif ev.kind == "call" and (ev.name.endswith("Store.purge") or ev.name == "fs.unlink"):
            if cleared:
                self.ctx.finding("C24.mark", self.entry, "the pending mark is removed before all "
                                 "garbage is", ev.loc(), st.path())
            purged = True
        st.mon = (cleared, purged)


def check(ctx):
    ctx.rule("C24.old", "only directories in the base directory that had no recent change are removed")
    ctx.rule("C24.age", "recent: within 93 days")
    ctx.rule("C24.recent", "a directory without recent changes has no entry, however deep, with one")
    ctx.rule("C24.pending", "pending garbage collections are done with the configuration of the "
             "directory, unless a job does them")
    ctx.rule("C24.mark", "the pending mark is removed after the garbage was")
    ctx.rule("C24.goes-on", "both loops go on after errors")
    ctx.rule("C24.wait", "both loops wait")
    ctx.rule("C24.started", "the daemon starts both loops")
    seen = set()
    m = Old(ctx, "BackyDaemon.purge_old_files")
    I, out, exc = ctx.run(m.entry, m, opaque={RECENT})
    m.end(out, exc)
    seen |= set(I.funcs_seen)
    m = Pending(ctx, "BackyDaemon.purge_pending_backups")
    I, out, exc = ctx.run(m.entry, m, opaque={"Job.run_gc", "CmdLineSource.load", "CmdLineSource.gc"})
    m.end(out, exc)
    seen |= set(I.funcs_seen)
    f = ctx.p.func("backy.utils." + RECENT)
    names = f.params()
    path = ("sym", names[0], ctx.p.param_type(f, names[0]))
    ref = ("sym", names[1], ctx.p.param_type(f, names[1]))
    m = Changes(ctx, RECENT, path, ref)
    I, out, exc = ctx.run(f, m, opaque={RECENT})
    m.end(out)

    names = {}
    for meth, op in (("set_purge_pending", "fs.touch"), ("clear_purge_pending", "fs.unlink")):
        m = Marks(ctx, f"Repository.{meth}")
        ctx.run(m.entry, m)
        names[meth] = {p for o, p in m.names}
        if not any(o == op or op == "fs.touch" and o == "fs.writefile" for o, p in m.names):
            ctx.finding("C24.mark", m.entry, "the mark is not changed", "")
    if names["set_purge_pending"] != names["clear_purge_pending"]:
        ctx.finding("C24.mark", "Repository.clear_purge_pending", "removes another mark than "
                    "set_purge_pending sets", "")
    files = {p[2][2] for p in names["set_purge_pending"]}
    got = set(ctx.sites.get("marker", ()))
    if got and files and got != files:
        ctx.finding("C24.mark", "BackyDaemon.purge_pending_backups", f"looks for the mark "
                    f"{', '.join(got)} instead of {', '.join(files)}", "")
    for cls in ("RBDSource", "FileSource"):
        m = Marks(ctx, f"{cls}.gc")
        I, out, exc = ctx.run(m.entry, m, opaque={"Store.purge"})
        for v, st in out:
            if not st.mon[0]:
                ctx.finding("C24.mark", m.entry, "the pending mark stays", "", st.path())
    started(ctx)
    ctx.rule("C24.trees", "one round of purge_old_files on constant trees removes exactly the abandoned directories")
    ctx.rule("C24.rounds", "one round of purge_pending_backups on constant directories collects exactly the garbage of "
             "those with a mark and without a job")
    old(ctx, "C24.trees")
    pending(ctx, "C24.rounds")


def started(ctx):
    class S(Monitor):
        def __init__(s):
            s.got = set()

        def init(s):
            return frozenset()

        def event(s, ev, st, I):
            if ev.kind == "call" and ev.name == "task.spawn":
                for t in subterms(ev.args[0]):
                    if t[0] == "coro":
                        st.mon = st.mon | {I.p.funcs[t[1]].name}
                    elif t[0] == "app" and t[1].startswith("repo:"):
                        st.mon = st.mon | {t[1].split(".")[-1]}
    m = S()
    I, out, exc = ctx.run("BackyDaemon.start", m, opaque={
        "BackyDaemon._read_config", "BackyDaemon._apply_config", "BackyDaemon.lock",
        "BackyDaemon.purge_old_files", "BackyDaemon.purge_pending_backups"})
    for v, st in out:
        for n in ("purge_old_files", "purge_pending_backups"):
            ctx.saw("started", n)
            if n not in st.mon:
                ctx.finding("C24.started", "BackyDaemon.start", f"{n} is not started", "", st.path())
