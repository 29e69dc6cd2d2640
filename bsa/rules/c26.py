"""Stopping a job or the daemon ends what it runs.

Cancellation: every coroutine the daemon works with is analysed with the
cancellation delivered at each of its awaits. Stopping: abstract tasks."""
from .c31 import Heap, Times
from .util import *
from ..interp import Budget

COROS = ("BackyDaemon.purge_old_files", "BackyDaemon.purge_pending_backups", "BackyDaemon.api_server_loop",
         "Job.run_forever", "Job.run_backup", "Job.run_gc", "Job.run_expiry", "Job.run_callback",
         "Job.push_metadata", "Job._push_metadata_single", "Job.pull_metadata", "Job._pull_metadata_single",
         "Job._wait_for_leader", "Job._wait_for_deadline", "AsyncCmdLineSource.invoke",
         "backy.utils.delay_or_event", "backy.utils.time_or_event", "backy.utils.has_recent_changes",
         "backy.utils.is_dir_no_symlink")
QUIET = {"Repository._clean", "Repository.scan", "Repository.connect", "Repository.expire", "Schedule.next",
         "Revision.create", "Revision.materialize", "Revision.write_info", "Revision.remove",
         "Revision.from_dict", "Revision.to_dict", "generate_taskid", "BackyAPI.reconfigure", "BackyAPI.start",
         "BackyAPI.__init__", "Job.update_status", "Job._increase_backoff", "Job.__init__",
         "format_datetime_local", "Client.put_tags",
         "Client.get_revs", "Client.get_jobs", "Client.fetch_status", "Client.touch_backup", "Client.run_purge",
         "Client.close", "ClientManager.close"}
WAIT = (".wait", ".communicate")
BLOCK = ("time.sleep", "select.select", "signal.pause", "os.wait", "os.waitpid", "input")


def is_spawn(t):
    return t[0] == "app" and t[1].startswith("proc:")


def asyncish(t):
    return "asyncio" in t[1] or "loop" in t[1]


SIGNAL = (".terminate", ".kill", ".send_signal")


class Cancel(Monitor):
    """state: (cancelled at: await site or None, running programs, signalled programs, site of the await)"""
    branches = True
    loop_soft = 12

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return (None, frozenset(), frozenset(), None)

    def site(self, ev):
        return (ev.fr.func.qual if ev.fr and ev.fr.func else "", getattr(ev.node, "lineno", 0),
                getattr(ev.node, "col_offset", 0))

    def on_throw(self, exc, st, I):
        at, run, sig, ended = st.mon
        e = I.last_event
        if at is not None and not exc[2] and e is not None and e.name in SIGNAL:
            pass        # the program has ended already
        elif at is not None and not exc[2] and not exc[1].endswith("CancelledError"):
            st.mon = (None, frozenset(), sig, None)     # the clean-up fails
        elif exc[1].endswith("CancelledError") and exc[2]:
            s = self.site(e) if e is not None else ("", 0, 0)
            self.ctx.saw("awaits", f"{self.entry}: {e.loc() if e is not None else ''}")
            if e is not None and e.kind == "await":
                run = run - {e.args[0]}         # did not start
            st.mon = (at or s, run | (ended or frozenset()), sig, None)

    @staticmethod
    def twin(ev):
        """CmdLineSource.invoke: what the daemon has is an AsyncCmdLineSource, whose invoke() is a coroutine"""
        f = ev.fr.func if ev.fr else None
        return f is not None and f.qual.endswith("CmdLineSource.invoke") and not f.is_async

    def event(self, ev, st, I):
        at, run, sig, ended = st.mon
        if ev.kind == "call" and ev.name == "proc.spawn" and ev.result is not None:
            if asyncish(ev.result):
                self.ctx.saw("programs", ev.loc())
                sig = sig - {ev.result}       # the same site again: another program
            elif not self.twin(ev):
                self.ctx.finding("C26.block", self.entry, "the daemon waits for a program without doing "
                                 "anything else meanwhile", ev.loc(), st.path())
        elif ev.kind == "call" and ev.name in BLOCK and ev.name != "input" or \
                ev.kind == "call" and ev.name == ".wait" and ev.args and is_spawn(ev.args[0]) \
                and not asyncish(ev.args[0]):
            self.ctx.finding("C26.block", self.entry, f"{ev.name.strip('.')} keeps the daemon from doing anything "
                             "else meanwhile", ev.loc(), st.path())
        elif ev.kind == "await":
            v = ev.args[0]
            s = self.site(ev)
            if at is not None and s == at:
                self.ctx.finding("C26.ends", self.entry, "goes on after it was cancelled: it waits again at the "
                                 "same place", ev.loc(), st.path())
            if is_spawn(v) and asyncish(v):
                run = run | {v}
            done = frozenset(x[2][0] for x in subterms(v) if x[0] == "app" and x[1] in WAIT and x[2]
                             and x[2][0] in run)
            st.mon = (at, run - done, sig, done)
            return
        elif ev.kind == "call" and ev.name in SIGNAL and ev.args:
            sig = sig | {ev.args[0]}
        elif ev.kind == "call" and ev.name in ("os.kill", "os.killpg") and ev.args:
            sig = sig | {x for x in subterms(ev.args[0]) if is_spawn(x)}
        st.mon = (at, run, sig, ended)


def cancelled(ctx):
    funcs = []
    for n in COROS:
        f = ctx.p.func(n) if n.startswith("backy.") and n in {g.qual for g in ctx.p.funcs} else \
            None if n.startswith("backy.") else ctx.p.try_method(*n.split("."))
        if f is not None:
            funcs.append((n, f))
    names = {n for n, f in funcs}
    for n, f in funcs:
        entry = n.replace("backy.utils.", "")
        m = Cancel(ctx, entry)
        short = {x.replace("backy.utils.", "") for x in names}
        try:
            I, out, exc = ctx.run(f, m, opaque=QUIET | short,
                                  cancel=True)
        except Budget:
            ctx.saw("undecided", f"{entry}: too many paths")
            continue
        ctx.saw("coroutines", entry)
        for v, st in out:
            if st.mon[0] is not None:
                ctx.finding("C26.ends", entry, "ends as if nothing had happened although it was cancelled while it "
                            f"waited in line {st.mon[0][1]}", f.qual, st.path())
        for e, st in exc:
            at, run, sig, ended = st.mon
            if at is None:
                continue
            if e[2] and not e[1].endswith(("CancelledError", "AssertionError", "KeyboardInterrupt", "SystemExit")):
                ctx.finding("C26.ends", entry, f"raises {e[1]} in place of the cancellation", f.qual, st.path())
            for p in run - sig:
                ctx.finding("C26.child", entry, "is cancelled but leaves the program it waits for running",
                            f.qual, st.path())


# ------------------------------------------------------------- programs
class Session(Monitor):
    def __init__(self, ctx):
        self.ctx = ctx

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name == "proc.spawn":
            self.ctx.saw("source programs", ev.loc())
            kw = ev.kw or {}
            own = kw.get("start_new_session") not in (None, FALSE, NONE) or kw.get("preexec_fn") not in (
                None, NONE) or kw.get("process_group") not in (None, NONE) or any(
                is_str(x) and x[2] == "setsid" for a in ev.args for x in subterms(a))
            if not own and not any(k.startswith("**") for k in kw):
                self.ctx.finding("C26.session", "AsyncCmdLineSource.invoke", "signals to the daemon's process "
                                 "group reach the source program", ev.loc(), st.path())


# ------------------------------------------------------------- stopping
class Tasks(Times):
    """Abstract tasks. state: what was done to them"""
    exact = True

    def __init__(self, tasks=()):
        self.tasks = tasks
        self.ext = dict(Times.ext)
        self.ext.update({"asyncio.all_tasks": self.all, "asyncio.current_task": lambda I, A, kw, st: NONE,
                         ("task", "cancel"): self.op("cancel"), ("task", "get_name"): self.get("name"),
                         ("task", "get_coro"): self.get("coro"), ("task", "done"): lambda I, A, kw, st: FALSE,
                         ("task", "cancelled"): lambda I, A, kw, st: FALSE,
                         ("loop", "stop"): self.op("stop"), ("loop", "is_running"): lambda I, A, kw, st: TRUE,
                         ("loop", "create_task"): self.spawn, "asyncio.create_task": self.spawn,
                         "asyncio.ensure_future": self.spawn})

    def init(self):
        return ()

    def all(self, I, A, kw, st):
        st = st.copy()
        o = ("obj", -9000, "set")
        st.heap[(o, "#c")] = tuple(("v", t) for t in self.tasks)
        return [(o, st)]

    def op(self, what):
        def f(I, A, kw, st):
            st = st.copy()
            st.mon = st.mon + ((what, A[0]),)
            return [(TRUE, st)]
        return f

    @staticmethod
    def get(name):
        return lambda I, A, kw, st: st.heap.get((A[0], name))

    @staticmethod
    def spawn(I, A, kw, st):
        st = st.copy()
        c = next((a for a in A if a[0] == "coro"), None)
        n = I.p.funcs[c[1]].name if c else "?"
        t = ("obj", -9100 - len(st.mon), "task")
        st.heap[(t, "name")] = C(n)
        st.mon = st.mon + (("spawn", n, t),)
        return [(t, st)]


def drive(ctx, m, f, h, self_val, case, **kw):
    try:
        I, out, exc = ctx.run(f, m, st=h if not isinstance(h, Heap) else h.state(m), self_val=self_val, lookup=False,
                              scan=False, max_steps=20000, **kw)
    except Budget:
        ctx.saw("undecided", f"{case}: too many paths")
        return None
    return out, exc


def terminate(ctx):
    f = ctx.p.try_method("BackyDaemon", "terminate")
    if f is None:
        return
    h, tasks = Heap(), []
    coros = ("shutdown_loop", "purge_old_files", "run_forever", "api_server_loop", "run_forever",
             "purge_pending_backups", "_push_metadata_single", "start")
    for i, n in enumerate(coros):
        co = h.of("coroutine", __name__=C(n), __qualname__=C(n))
        tasks.append(h.of("task", name=C(f"Task-{i}"), coro=co))
    d = h.of("backy.daemon.BackyDaemon", loop=h.of("loop"), jobs=h.dict({}), log=("sym", "log", None))
    m = Tasks(tasks)
    r = drive(ctx, m, f, h, d, "terminate")
    for v, st in (r[0] if r else ()):
        ctx.saw("stopping", "terminate")
        if any(x[0] == "stop" for x in st.mon):
            ctx.finding("C26.terminate", "BackyDaemon.terminate", "stops the event loop before the tasks could end",
                        f.qual, st.path())
        left = [n for n, t in zip(coros, tasks) if ("cancel", t) not in st.mon]
        if left:
            ctx.finding("C26.terminate", "BackyDaemon.terminate",
                        f"tasks are not cancelled: {', '.join(dict.fromkeys(left))}", f.qual, st.path())
    if r and not r[0]:
        ctx.finding("C26.terminate", "BackyDaemon.terminate", "fails", f.qual, ())


def jobs(ctx):
    stop, start = ctx.p.try_method("Job", "stop"), ctx.p.try_method("Job", "start")
    if stop is None or start is None:
        return
    for running in (True, False):
        h = Heap()
        m = Tasks()
        t = h.of("task", name=C("old"))
        loop = h.of("loop")
        d = h.of("backy.daemon.BackyDaemon", loop=loop)
        j = h.of("backy.daemon.scheduler.Job", _task=t if running else NONE, daemon=d, name=C("job"),
                 log=("sym", "log", None))
        opq = {"Job.update_status"}
        r = drive(ctx, m, stop, h, j, f"stop, running: {running}", opaque=opq)
        for v, st in (r[0] if r else ()):
            ctx.saw("stopping", f"stop, running: {running}")
            if running and ("cancel", t) not in st.mon:
                ctx.finding("C26.stop", "Job.stop", "the task of the job is not cancelled", stop.qual, st.path())
            st = st.copy()
            st.mon = ()
            r2 = drive(ctx, m, start, st, j, "start again", opaque=opq)
            for v2, s2 in (r2[0] if r2 else ()):
                ctx.saw("stopping", "start after stop")
                new = [x for x in s2.mon if x[0] == "spawn"]
                if [x[1] for x in new] != ["run_forever"]:
                    ctx.finding("C26.start", "Job.start", "starting a job does not start its backup loop once",
                                start.qual, s2.path())
                elif s2.heap.get((j, "_task")) != new[0][2]:
                    ctx.finding("C26.start", "Job.start", "the task of the job is not remembered: the job can't be "
                                "stopped", start.qual, s2.path())
            if r2 and not r2[0]:
                ctx.finding("C26.start", "Job.stop", "a stopped job cannot be started again", stop.qual, st.path())
        if r and not r[0]:
            ctx.finding("C26.stop", "Job.stop", "fails", stop.qual, ())


class Loop(Monitor):
    """shutdown_loop: state: (cancelled, stopped)"""
    branches = True
    waits = False

    def init(self):
        return (False, False)

    def on_throw(self, exc, st, I):
        if exc[1].endswith("CancelledError") and exc[2]:
            st.mon = (True, st.mon[1], I.last_event and I.last_event.node)

    def event(self, ev, st, I):
        if ev.kind == "await" and st.mon[0] is True and not st.mon[1] and st.mon[2:] == (ev.node,):
            self.ctx.finding("C26.shutdown", "BackyDaemon.shutdown_loop", "goes on waiting after the daemon was told to "
                             "end: the event loop keeps running", ev.loc(), st.path())
        if ev.kind == "await" or ev.kind == "call" and ev.name in ("cm.enter", "task.spawn"):
            self.waits = True
        if ev.kind == "await" and not st.mon[0] and any(s[0] == "app" and s[1] == ".wait" or s[0] == "app" and
                                                        s[1].endswith("Future") for s in subterms(ev.args[0])):
            st.mon = (None, *st.mon[1:])      # waited for something: perhaps the end
        elif ev.kind == "call" and ev.name == ".stop" and ev.args and (
                has_attr(ev.args[0], "loop") or any(s[0] == "app" and s[1].endswith(("get_running_loop", "get_event_loop"))
                                                    for s in subterms(ev.args[0]))):
            if st.mon[0] is False:
                self.ctx.finding("C26.shutdown", "BackyDaemon.shutdown_loop", "the event loop is stopped although "
                                 "nobody asked the daemon to end", ev.loc(), st.path())
            st.mon = (st.mon[0], True, *st.mon[2:])


def has_attr(t, n):
    return any(s[0] == "attr" and s[2] == n for s in subterms(t))


def shutdown(ctx):
    f = ctx.p.try_method("BackyDaemon", "shutdown_loop")
    if f is None:
        return
    m = Loop()
    m.ctx = ctx
    I, out, exc = ctx.run(f, m, cancel=True)
    ctx.saw("stopping", "shutdown_loop")
    for v, st in out + [(e, s) for e, s in exc if e[2] and e[1] != "AssertionError"]:
        c, stopped = st.mon[:2]
        if c and not stopped:
            ctx.finding("C26.shutdown", "BackyDaemon.shutdown_loop", "the event loop keeps running after the daemon "
                        "was told to end", f.qual, st.path())
    if not m.waits:
        ctx.finding("C26.shutdown", "BackyDaemon.shutdown_loop", "does not wait: nothing else gets to run",
                    f.qual, ())
    for v, st in out:
        if st.mon[0] is False:
            ctx.finding("C26.shutdown", "BackyDaemon.shutdown_loop", "ends before the daemon is told to end: nothing "
                        "stops the event loop then", f.qual, st.path())


class Started(Monitor):
    def __init__(self):
        pass

    def init(self):
        return frozenset()

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name == "task.spawn":
            st.mon = st.mon | {I.p.funcs[x[1]].name for a in ev.args for x in subterms(a) if x[0] == "coro"}


def started(ctx):
    f = ctx.p.try_method("BackyDaemon", "start")
    if f is None or ctx.p.try_method("BackyDaemon", "shutdown_loop") is None:
        return
    I, out, exc = ctx.run(f, Started(), opaque={"BackyDaemon._apply_config", "BackyDaemon._read_config",
                                                "BackyDaemon.lock"})
    for v, st in out:
        ctx.saw("stopping", "start")
        if "shutdown_loop" not in st.mon:
            ctx.finding("C26.shutdown", "BackyDaemon.start", "the task that ends the daemon is not started", f.qual,
                        st.path())


def check(ctx):
    ctx.rule("C26.ends", "a coroutine that is cancelled at one of its awaits ends with that cancellation")
    ctx.rule("C26.child", "a program somebody waits for is sent a signal when the waiting is cancelled")
    ctx.rule("C26.block", "no coroutine of the daemon waits in a way that blocks the others")
    ctx.rule("C26.session", "source programs do not get the signals meant for the daemon")
    ctx.rule("C26.terminate", "terminate() cancels every task")
    ctx.rule("C26.shutdown", "the event loop is stopped when, and only when, the task for this is cancelled")
    ctx.rule("C26.stop", "stop() cancels the job's task; start() starts the loop and remembers its task")
    cancelled(ctx)
    f = ctx.p.try_method("AsyncCmdLineSource", "invoke")
    if f is not None:
        ctx.run(f, Session(ctx))
    terminate(ctx)
    jobs(ctx)
    shutdown(ctx)
    started(ctx)
    ctx.need("coroutines", 8)
    ctx.need("awaits", 8)
    ctx.need("programs", 1)
