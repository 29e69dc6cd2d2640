"""One daemon per base directory, bounded number of parallel backups."""
import ast

from .c16 import num
from .reload import slots
from .util import *


class Single(Monitor):
    """start(): state: (lock file term or None, failed, acted)"""

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return (None, False)

    def report(self, rule, msg, loc, st):
        self.ctx.finding(rule, self.entry, msg, loc, st.path())

    def on_throw(self, exc, st, I):
        e = I.last_event
        if e is not None and e.name == "flock":
            st.mon = (None, True)

    def event(self, ev, st, I):
        f, failed = st.mon
        n = ev.name
        if ev.kind == "call" and n == "flock":
            self.ctx.saw("locks", ev.loc())
            mode, blocking = flock_mode(ev.args[1]) if len(ev.args) > 1 else (None, True)
            if mode == "EX":
                f = ev.args[0]
                p = path_of(f, st)
                if not any(s[0] == "attr" and s[2] == "base_dir" for s in subterms(p)):
                    self.report("C18.lock", f"the lock file {show(p)} does not belong to the base "
                                "directory", ev.loc(), st)
                if not self.persistent(p, st):
                    self.report("C18.lock", f"the lock file {show(p)} is not the same for every "
                                "daemon", ev.loc(), st)
            elif mode in ("UN", "SH"):
                if f == ev.args[0] or mode == "SH" and f is None and any(
                        s[0] == "attr" and s[2] == "base_dir"
                        for s in subterms(path_of(ev.args[0], st))):
                    f = None
        elif ev.kind == "call" and f is not None and (
                n in ("file.close", ".close", "os.close", "cm.exit")) and ev.args \
                and ev.args[0] == f:
            self.report("C18.keep", "the lock file is closed, which gives up the lock", ev.loc(), st)
            f = None
        elif ev.kind == "call" and n in ("fs.unlink", "fs.rename") and f is not None and \
                ev.args[0] == path_of(f, st):
            self.report("C18.keep", "the lock file is removed while it is locked", ev.loc(), st)
        elif ev.kind == "call" and (n == "task.spawn" or n.endswith("._apply_config")
                                    or n == ".add_signal_handler"):
            self.ctx.saw("actions", ev.loc())
            if f is None:
                self.report("C18.first", "the daemon starts working "
                            + ("although the lock was refused" if failed else
                               "without holding the lock of the base directory"), ev.loc(), st)
        st.mon = (f, failed)

    @staticmethod
    def persistent(p, st):
        return not any(s[0] == "tmp" or s[0] == "app" and s[1] in (
            "os.getpid", "time.time", "uuid.uuid4") for s in subterms(p))


def single(ctx):
    f = ctx.p.method("BackyDaemon", "start")
    m = Single(ctx, "BackyDaemon.start")
    I, out, exc = ctx.run(f, m, opaque={"BackyDaemon._apply_config", "BackyDaemon._read_config"})
    if not ctx.sites.get("locks"):
        ctx.finding("C18.first", m.entry, "no lock is taken", f.qual, ())
    for v, st in out:
        lf = st.mon[0]
        if lf is None:
            ctx.finding("C18.first", m.entry, "the daemon is started without holding the lock of "
                        "the base directory", f.qual, st.path())
            continue
        kept = any(x == lf or x[0] == "typed" and x[1] == lf for k, x in st.heap.items()
                   if k[0][0] in ("sym", "typed") and isinstance(x, tuple)) or any(
            k[0] == ("ext", "glob") for k in st.heap)
        if not kept:
            ctx.finding("C18.keep", m.entry, "nothing refers to the lock file when start() is "
                        "over: it is closed, which gives up the lock", f.qual, st.path())
    ctx.need("actions")


class Limit(Monitor):
    """_apply_config: state: (keys set, none there yet?, limit unchanged?)"""
    branches = True

    def __init__(self, ctx, entry, keys):
        self.ctx, self.entry, self.keys = ctx, entry, keys
        self.compared = False

    def init(self):
        return (frozenset(), None, None)

    def event(self, ev, st, I):
        keys, empty, same = st.mon
        if ev.kind == "fact":
            a, v = ev.args[0], cval(ev.args[1])
            if any(s[0] == "attr" and s[2] in ("_bound_value", "worker_limit") for s in subterms(a)) \
                    and a[0] == "cmp" and a[1] in ("==", "!="):
                self.compared = True
                same = v if a[1] == "==" else not v
            elif self.sem(a):
                empty = not v
            elif a[0] == "app" and a[1] == "len" and self.sem(a[2][0]):
                empty = not v
            elif a[0] == "cmp" and a[1] == "in" and self.sem(a[3]):
                empty = not v
            elif a[0] == "cmp" and a[1] in ("==", "is") and NONE in a[2:4]:
                if any(s[0] == "app" and s[1] in (".get", "getattr") and s[2] and (
                        self.sem(s[2][0])) for s in subterms(a)):
                    empty = v
        elif ev.kind == "setitem" and self.sem(ev.args[0]):
            k = ev.args[1]
            self.value(ev.args[2], ev, st)
            if is_str(k):
                keys = keys | {k[2]}
            else:
                keys = keys | self.keys
        elif ev.kind == "setattr" and ev.name == "backup_semaphores":
            kk = st.heap.get((ev.args[1], "#k"))
            if kk:
                ks = set()
                for x in kk:
                    if is_str(x[0]):
                        ks.add(x[0][2])
                        self.value(x[1], ev, st)
                    else:
                        ks |= self.keys
                keys = keys | ks
            else:
                keys = keys | self.keys
                self.value(ev.args[1], ev, st)
        elif ev.kind == "mutate" and ev.args and self.sem(ev.args[0]) and ev.name == "update":
            keys = keys | self.keys
        st.mon = (keys, empty, same)

    @staticmethod
    def sem(t):
        return t[0] == "attr" and t[2] == "backup_semaphores"

    def value(self, v, ev, st):
        for s in subterms(v):
            if s[0] == "app" and "Semaphore" in s[1]:
                self.ctx.saw("limits", ev.loc())
                a = s[2][0] if s[2] else dict(s[3] or ()).get("value", C(1))
                try:
                    bad = [x for x in (1, 2, 5, 16) if num(a, {"worker_limit": x}) != x]
                except Exception:
                    bad = []
                if is_c(a) or bad:
                    self.ctx.finding("C18.limit", self.entry, "the number of slots is "
                                     f"{show(a)}, not the worker limit", ev.loc(), st.path())


def used_keys(ctx):
    """constant keys the backup loop may use"""
    f = ctx.p.method("Job", "run_forever")
    ks = set()
    assigned = {}
    for g in ctx.p.funcs:
        if g.is_lambda or g.module is not f.module:
            continue
        names = set()
        for n in ast.walk(g.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) \
                    and n.value.attr == "backup_semaphores":
                if isinstance(n.slice, ast.Constant):
                    ks.add(n.slice.value)
                else:
                    names |= {x.id for x in ast.walk(n.slice) if isinstance(x, ast.Name)}
                    ks |= {x.value for x in ast.walk(n.slice) if isinstance(x, ast.Constant)
                           and isinstance(x.value, str)}
        for n in ast.walk(g.node):
            t = n.targets[0] if isinstance(n, ast.Assign) else \
                n.target if isinstance(n, ast.AnnAssign) else None
            if isinstance(t, ast.Name) and t.id in names and n.value is not None:
                ks |= {x.value for x in values(n.value) if isinstance(x, ast.Constant)
                       and isinstance(x.value, str)}
    return frozenset(ks) or frozenset({"slow", "fast"})


def values(e):
    if isinstance(e, ast.IfExp):
        return values(e.body) + values(e.orelse)
    if isinstance(e, ast.BoolOp):
        return [y for x in e.values for y in values(x)]
    return [e]


def limit(ctx):
    f = ctx.p.method("BackyDaemon", "_apply_config")
    keys = used_keys(ctx)
    ctx.notes.append("semaphores used by the backup loop: " + ", ".join(sorted(keys)))
    m = Limit(ctx, "BackyDaemon._apply_config", keys)
    I, out, exc = ctx.run(f, m, opaque={"Job.stop", "Job.start", "Job.configure", "Job.__init__",
                                        "Repository.__init__"})
    always, never = True, True
    for v, st in out:
        got, empty, same = st.mon
        ctx.saw("configurations", f"slots there: {empty is not True}, limit unchanged: {same}")
        always = always and bool(got)
        never = never and not got
        if got and got < keys:
            ctx.finding("C18.both", m.entry, f"the slots of {', '.join(sorted(keys - got))} backups "
                        "are not created or not changed", f.qual, st.path())
        if empty is True and not got:
            ctx.finding("C18.create", m.entry, "no slots are created at the start", f.qual, st.path())
        if same is False and not got:
            ctx.finding("C18.reload", m.entry, "a changed worker limit is not applied", f.qual,
                        st.path())
        if same is True and empty is not True and got:
            ctx.finding("C18.keep-slots", m.entry, "the slots are replaced although the limit did "
                        "not change: running backups are no longer counted", f.qual, st.path())
    if never:
        ctx.finding("C18.create", m.entry, "no slots are created", f.qual, ())
    elif always and not m.compared:
        ctx.finding("C18.keep-slots", m.entry, "the slots are replaced at every reload: running "
                    "backups are no longer counted", f.qual, ())
    elif not m.compared:
        ctx.finding("C18.reload", m.entry, "a changed worker limit is never applied", f.qual, ())


def check(ctx):
    ctx.rule("C18.first", "start() reaches the configuration of jobs, the creation of tasks and "
             "the signal handlers only with an exclusive flock on a file named after the base "
             "directory")
    ctx.rule("C18.keep", "the locked file is neither closed, unlocked nor removed and stays "
             "referenced")
    ctx.rule("C18.limit", "every semaphore has exactly worker_limit slots; all semaphores the "
             "backup loop uses are created together, if there are none or if the limit differs, "
             "and only then")
    ctx.rule("C18.slots", "the slots there are after _apply_config, for constant limits and slots in use")
    single(ctx)
    limit(ctx)
    slots(ctx, "C18.slots")
