"""Exit statuses: failures of the programs doing the work reach the caller."""
from ..interp import State
from .commands import statuses
from .util import *

# the kinds of exit status a program can end with: success, failure, signal
STATUS = (0, 1, -9)
LOCAL = {"Command.get_repos", "Repository._clean", "Repository.expire", "Revision.create",
         "Revision.materialize", "Repository.validate_tags", "Client.run_job"}


class Status(Monitor):
    """Monitor state: what failed so far (or None)"""
    proc_status = STATUS
    loop_soft = 40
    keep_ints = (0, 1, 2, 9, -9, -1)
    branches = True

    def __init__(self, ctx, entry, fails=()):
        self.ctx, self.entry, self.fails = ctx, entry, fails
        self.exits = []

    def event(self, ev, st, I):
        if ev.kind == "status":
            self.ctx.saw("programs", f"{self.entry}: {ev.where()}")
            if cval(ev.args[1]) != 0:
                st.mon = f"the program started at {ev.loc()} failed"
        elif ev.kind == "outcome":
            if self.bad_outcome(ev.args[1]):
                st.mon = f"{ev.name} failed"
        elif ev.kind == "call" and ev.name == "proc.spawn":
            self.ctx.saw("programs", f"{self.entry}: {ev.where()}")
            st.mon = None if self.retries else st.mon
        elif ev.kind == "call" and ev.name == "sys.exit":
            self.exits.append((ev.args[0], st))
        elif ev.kind == "fact":
            a, v = ev.args
            if st.mon and a[0] == "cmp" and a[1] == "==" and v == TRUE and C(2) in a[2:4] and \
                    any(s[0] == "attr" and s[2] == "returncode" for s in subterms(a)):
                st.mon = None       # "no such image"

    retries = False

    def bad_outcome(self, v):
        return is_c(v) and not isinstance(v[2], bool) and v[2] not in (0, None)

    def on_throw(self, exc, st, I):
        e = I.last_event
        if e is None:
            return
        if e.kind == "call" and e.name == "proc.spawn":
            st.mon = f"the program started at {e.loc()} failed"
        elif e.kind == "call" and e.name.startswith("repo:") and e.name[5:].endswith(self.fails):
            st.mon = f"{e.name[5:]} raised an error"

    def report(self, st, what, rule="C15.lost"):
        self.ctx.finding(rule, self.entry, f"{st.mon}, but {what}", "", st.path())

    def status(self, out):
        """the value returned is the exit status / it is nonzero after a failure"""
        for v, st in out:
            self.ctx.saw("exits", self.entry)
            if st.mon and (is_c(v) and not v[2] or v == NONE):
                self.report(st, f"the result is {show(v)}")

    def raises(self, out, rule="C15.lost"):
        for v, st in out:
            self.ctx.saw("exits", self.entry)
            if st.mon:
                self.report(st, "the caller is not told", rule)


def outcome(*values):
    """A function that may fail, or return one of these values."""
    def model(I, fv, args, kw, st, node, fr):
        from ..interp import Event
        f = I.p.funcs[fv[1]]
        name = f.qual.replace("backy.", "", 1)
        t = st.copy()
        t.mon = f"{name} raised an error"
        I.last_event = None
        I.throw(("exc", "Exception", False), t)
        out = []
        for v in values:
            s = st.copy()
            I.emit(Event("outcome", name, (NONE, v), {}, node, fr), s)
            out.append((v, s))
        return out
    return model


INTS = (C(0), C(1), C(-9))


def commands(ctx):
    """methods of Command that main() offers as subcommands"""
    import ast
    main = ctx.p.func("backy.cli.main")
    cls = ctx.p.cls("Command")
    names = set()
    for n in ast.walk(main.node):
        if isinstance(n, ast.Call) and getattr(n.func, "attr", "") == "set_defaults":
            for k in n.keywords:
                if k.arg == "func" and isinstance(k.value, ast.Constant) and \
                        ctx.p.find_method(cls, k.value.value):
                    names.add(k.value.value)
    return sorted(names) or ["backup", "restore", "verify", "gc", "tags", "rm", "distrust"]


def check(ctx):
    ctx.rule("C15.lost", "a failed program or step is never followed by a report of success")
    ctx.rule("C15.ignored", "the exit status of a program that produces data is looked at")
    ctx.rule("C15.check", "check: 2 if the SLA is violated, else 1 if there are reports, else 0")
    ctx.rule("C15.exit", "programs end with the status their main function returns")

    # the shims around the source programs
    for op in ("backup", "restore", "verify", "gc"):
        for cls in ("CmdLineSource", "AsyncCmdLineSource"):
            m = Status(ctx, f"{cls}.{op}")
            I, out, exc = ctx.run(f"{cls}.{op}", m)
            m.status(out)
    # subcommands that run one
    for op in ("backup", "restore", "verify", "gc"):
        m = Status(ctx, f"Command.{op}")
        I, out, exc = ctx.run(f"Command.{op}", m, opaque=LOCAL)
        m.status(out)
    # the command line: any error or nonzero result of any subcommand
    for name in commands(ctx):
        q = ctx.p.method("Command", name).qual
        m = Status(ctx, f"backy {name}", fails=("get_repos",))
        I, out, exc = ctx.run("Command.__call__", m, args={"cmdname": C(name)},
                              opaque={"Command.get_repos"},
                              subst={q: outcome(NONE, *INTS)})
        m.status(out)
    # tags: refused changes
    m = Status(ctx, "Command.tags")
    m.bad_outcome = lambda v: v == FALSE
    I, out, exc = ctx.run("Command.tags", m, subst={
        ctx.p.method("Repository", "tags").qual: outcome(TRUE, FALSE)})
    m.status(out)
    ctx.rule("C15.exact", "the status of a subcommand whose steps end with these statuses (constant propagation)")
    statuses(ctx, "C15.exact")
    sla(ctx)
    # the entry points of the programs
    main(ctx, "backy.cli.main", {"Command.__call__": INTS})
    for c in ("RBDSource", "FileSource"):
        if ctx.p.try_method(c, "main"):
            mod = ctx.p.cls(c).module.name
            main(ctx, f"{mod}.main", {f"{c}.main": INTS})
            plugin(ctx, c)
    missing(ctx, "FileSource")
    # jobs of the daemon
    m = Status(ctx, "Job.run_backup")
    I, out, exc = ctx.run("Job.run_backup", m, opaque=LOCAL)
    m.raises(out)
    # external programs
    for name in ("map", "unmap", "snap_create", "snap_ls", "snap_rm", "exists"):
        if ctx.p.try_method("RBDClient", name):
            m = Status(ctx, f"RBDClient.{name}")
            I, out, exc = ctx.run(f"RBDClient.{name}", m)
            m.raises(out)
    for e in ("RBDClient.export", "RBDSource.restore_backy_extract", "backy.utils.cp_reflink"):
        m = Status(ctx, e)
        m.retries = e.endswith("cp_reflink")
        I, out, exc = ctx.run(e, m)
        m.raises(out, "C15.ignored" if e.endswith("export") else "C15.lost")
    ctx.need("programs", 3)
    ctx.need("exits", 5)


def main(ctx, name, subst):
    try:
        f = ctx.p.func(name)
    except Exception:
        return
    m = Status(ctx, name)
    I, out, exc = ctx.run(f, m, opaque={"Source.create_argparse"}, subst={
        ctx.p.method(*k.split(".")).qual: outcome(*v) for k, v in subst.items()})
    seen = False
    for v, st in m.exits + out:
        seen = seen or st.mon
        if st.mon and (v == NONE or is_c(v) and not v[2]):
            ctx.finding("C15.exit", name, f"{st.mon}, but the program ends with {show(v)}",
                        "", st.path())
    ctx.saw("mains", name)


def plugin(ctx, cls):
    """the source programs: any failing step makes them end with an error"""
    subst = {}
    for op, values in (("backup", (TRUE, FALSE)), ("restore", (NONE,)), ("verify", (NONE,)),
                       ("gc", (NONE,))):
        subst[ctx.p.method(cls, op).qual] = outcome(*values)
    e = f"{cls}.main"
    m = Status(ctx, e, fails=("create_source", "find_by_uuid", "CmdLineSource.load"))
    m.bad_outcome = lambda v: v == FALSE
    I, out, exc = ctx.run(f"{cls}.main", m, opaque={"Source.create_argparse", "CmdLineSource.load"},
                          self_val=("class", ctx.p.cls(cls).qual), subst=subst)
    m.status(out)


class Gone(Monitor):
    """Monitor state: has the file been looked for?"""

    def __init__(self):
        def no(I, A, kw, st):
            st.mon = True
            return FALSE

        def fail(I, A, kw, st):
            I.throw(("exc", "FileNotFoundError", True), st)
            return []
        self.ext = {"fs.exists": no, "fs.isfile": no, "fs.stat": fail, "fs.lstat": fail, "fs.open": fail}


def missing(ctx, cls):
    """verifying a revision whose data does not exist"""
    f, main = ctx.p.try_method(cls, "verify"), ctx.p.try_method(cls, "main")
    if f is None or main is None:
        return
    I, out, exc = ctx.run(f, Gone(), st=State(mon=False))
    for v in {v for v, st in out if st.mon and (v in (TRUE, FALSE, NONE) or is_c(v))}:
        if is_c(v) and v[2] not in (True, False, None, 0):
            continue

        def model(I, fv, args, kw, st, node, fr, v=v):
            st.mon = "the data of the revision verified does not exist"
            return [(v, st)]
        m = Status(ctx, f"{cls}.main")
        m.bad_outcome = lambda v: False
        I, res, exc = ctx.run(f"{cls}.main", m, opaque={"Source.create_argparse", "CmdLineSource.load"},
                              self_val=("class", ctx.p.cls(cls).qual), subst={f.qual: model})
        for r, st in res:
            if st.mon and st.mon.startswith("the data") and (r == NONE or is_c(r) and not r[2]):
                ctx.finding("C15.lost", f"{cls}.verify", f"{st.mon}, but the program ends with {show(r)}", f.loc, st.path())
    ctx.saw("exits", f"{cls}.verify: no data")


class Sla(Monitor):
    """Monitor state: is the SLA met? (None: not looked at)"""
    keep_ints = (0, 1, 2)


def answer(I, fv, args, kw, st, node, fr):
    if st.mon is not None:
        return [(C(st.mon), st)]
    I.throw(("exc", "Exception", False), st)
    out = []
    for x in (True, False):
        s = st.copy()
        s.mon = x
        out.append((C(x), s))
    return out


def sla(ctx):
    e = "Command.check"
    repo = ("sym", "repo", ("cls", ctx.p.cls("Repository").qual))
    for reports in (True, False):
        st = State(mon=None)
        st.heap[(repo, "report_ids")] = ("tuple", (C("r"),) if reports else ())
        I, out, exc = ctx.run(e, Sla(), args={"repo": repo}, st=st, subst={
            ctx.p.method("Repository", "sla").qual: answer})
        for v, st in out:
            met = st.mon
            ctx.saw("exits", f"{e}: sla {met}, reports {reports}")
            if not is_c(v):
                continue
            v = v[2] or 0
            if met is False and v < 2:
                bad = "violated"
            elif met is None:
                bad = "not looked at"
            elif met and v != int(reports):
                bad = "met and " + ("" if reports else "no ") + "reports"
            else:
                continue
            ctx.finding("C15.check", e, f"exit status {v} with the SLA {bad}", "", st.path())
