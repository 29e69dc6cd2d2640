"""The backup loop of a job: survives failures, backs off, keeps the order."""
from ..interp import Budget, Event, State
from .util import *
from .c31 import Heap, NOW, Times, sched, subst as subst31, value

STEPS = {"Job._wait_for_leader", "Job.pull_metadata", "Job.push_metadata", "Job.run_backup",
         "Job.run_expiry", "Job.run_gc", "Job.run_callback", "Repository.connect",
         "Repository._clean", "Repository.scan", "Schedule.next"}
SAFE = ("backy.utils.format_datetime_local", "backy.utils.generate_taskid")
AFTER = ("pull_metadata", "run_expiry", "push_metadata", "run_gc", "run_callback")
ORDER = (("run_backup", "pull_metadata"), ("pull_metadata", "run_expiry"),
         ("run_expiry", "push_metadata"), ("push_metadata", "run_gc"), ("run_gc", "run_callback"))


def safe(I, fv, args, kw, st, node, fr):
    f = I.p.funcs[fv[1]]
    return [(("idx", ("app", f.qual, tuple(args), (), 0), C(0))
             if f.name == "format_datetime_local" else ("app", f.qual, tuple(args), (), 0), st)]


def wait_model(I, fv, args, kw, st, node, fr):
    """time_or_event / delay_or_event: the time is over, or somebody asks for a run."""
    f = I.p.funcs[fv[1]]
    I.last_event = None
    I.emit(Event("wait", f.name, tuple(args) + tuple(v for _, v in sorted(dict(kw or {}).items())),
                 {}, node, fr), st)
    I.await_point(st, node, fr)
    return [(TRUE, st.copy()), (NONE, st)]


WAITS = {"backy.utils.time_or_event": wait_model, "backy.utils.delay_or_event": wait_model}


def num(t, env):
    """The number a term stands for, given the values of attributes/loop variables."""
    k = t[0]
    if k == "c":
        if isinstance(t[2], (int, float)):
            return t[2]
        raise ValueError
    if k == "loop" and isinstance(t[2], tuple) and t[2][-1] in env:
        return env[t[2][-1]]
    if k == "attr" and t[2] in env:
        return env[t[2]]
    if k == "typed":
        return num(t[1], env)
    if k == "bin":
        a, b = num(t[2], env), num(t[3], env)
        if t[1] == "**" and abs(b) > 400:
            raise ValueError
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "**": lambda: a ** b,
                "<<": lambda: a << b, "//": lambda: a // b, "/": lambda: a / b,
                "%": lambda: a % b}[t[1]]()
    if k == "app":
        a = t[2]
        if t[1] in ("min", "max"):
            if len(a) == 1 and a[0][0] in ("tuple", "list"):
                a = a[0][1]
            v = [num(x, env) for x in a]
            return min(v) if t[1] == "min" else max(v)
        if t[1] in ("int", "float", "abs", "round"):
            return int(num(a[0], env))
        if t[1] == "pow":
            return num(("bin", "**", a[0], a[1]), env)
        if t[1] == ".total_seconds":
            return num(a[0], env)
        if t[1].endswith("timedelta"):
            u = {"days": 86400, "hours": 3600, "minutes": 60, "seconds": 1, "weeks": 604800}
            s = 0
            for n, x in t[3]:
                s += num(x, env) * u[n]
            for n, x in zip(("days", "seconds"), a):
                s += num(x, env) * u[n]
            return s
    raise ValueError


def delay_of(t):
    """`now + delay` / `delay` -> delay"""
    if t[0] == "bin" and t[1] == "+":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if mentions_app(a, "datetime.datetime.now"):
                return b
    return t


def mentions_app(t, name):
    return any(s[0] == "app" and s[1].endswith(name) for s in subterms(t))


def attrs_in(t):
    out = set()
    for s in subterms(t):
        if s[0] == "loop" and isinstance(s[2], tuple) and isinstance(s[2][-1], str):
            out.add(s[2][-1])
        elif s[0] == "attr":
            out.add(s[2])
    return out


class Cycle(Monitor):
    """state: (steps since the last wait, slot held, failed step, updates since then,
    kind of the last wait, errors pending?, another server leads?, cancelled?, woken?)"""
    branches = True
    keep_ints = (0,)
    loop_soft = 12

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.inits = {}
        self.failing = {}       # updates of failing attempts -> (step, path)
        self.delays = {}        # delay terms of waits -> loc
        self.success = []       # updates of successful attempts
        self.started = False

    def init(self):
        return ((), (), None, (), "", None, None, False)

    def report(self, rule, msg, loc, st):
        self.ctx.finding(rule, self.entry, msg, loc, st.path())

    def on_throw(self, exc, st, I):
        steps, held, failed, upd, kind, err, lead, canc = st.mon
        e = I.last_event
        if "Cancelled" in exc[1]:
            canc = True
        elif e is not None and failed is None and exc[1] != "AssertionError":
            failed = e.name.rsplit(".", 1)[-1] if e.name.startswith("repo:") else \
                f"{exc[1]} at {e.loc()}"
            upd = ()
            steps = tuple(x for x in steps if x == "connect")
        if e is not None and e.kind == "cm.enter" or e is not None and e.name == "cm.enter":
            held = ()
        st.mon = (steps, held, failed, upd, kind, err, lead, canc)

    def event(self, ev, st, I):
        steps, held, failed, upd, kind, err, lead, canc = st.mon
        n = ev.name
        if ev.kind == "setattr" and ev.args[0] == ("sym", "self", ev.args[0][2:] and ev.args[0][2]) \
                and n in self.counters:
            if not self.started:
                self.inits[n] = ev.args[1]
            upd = tuple(x for x in upd if x[0] != n) + ((n, ev.args[1]),)
        elif ev.kind == "fact":
            a = ev.args[0]
            if mentions_app(a, "_wait_for_leader"):
                lead = cval(ev.args[1])
            elif attrs_in(a) & set(self.counters) and not mentions_app(a, "next"):
                x = cval(ev.args[1])
                if a[0] == "cmp":
                    x = x if (a[1], a[3]) in ((">", C(0)), (">=", C(1)), ("!=", C(0))) else \
                        (not x) if (a[1], a[3]) in (("==", C(0)), ("<", C(1)), ("<=", C(0))) else \
                        x if a[1] == "<" and a[2] == C(0) else None
                err = False if x is False else x if err is None else err
        elif ev.kind in ("cm.enter", "cm.exit") or ev.kind == "call" and n in (
                "cm.enter", "cm.exit", ".acquire", ".release"):
            if any(s[0] == "attr" and s[2] == "backup_semaphores" for a in ev.args
                   for s in subterms(a)):
                if n in ("cm.enter", ".acquire"):
                    held = held + (ev.args[0],)
                else:
                    held = tuple(x for x in held if x != ev.args[0])
        elif ev.kind == "wait" or ev.kind == "call" and n == "asyncio.sleep":
            self.wait(ev, st)
            _, held, _, _, kind, err, lead, canc = st.mon
            steps, failed, upd, lead = (), None, (), None
        elif ev.kind == "call" and n.startswith("repo:"):
            s = n.rsplit(".", 1)[-1]
            if any(n.endswith("." + x) for x in STEPS):
                self.step(s, ev, st)
                if s not in steps or s != steps[-1]:
                    steps = steps + (s,)
        st.mon = (steps, held, failed, upd, kind, err, lead, canc)

    counters = ()

    def step(self, s, ev, st):
        steps, held, failed, upd, kind, err, lead, canc = st.mon
        self.ctx.saw("steps", s)
        if s in ("connect", "run_backup", "next", "pull_metadata", "run_callback", "run_expiry") and s in steps:
            self.report("C16.wait", f"{s} is repeated without waiting", ev.loc(), st)
        if canc:
            self.report("C16.cancel", f"{s} follows although the task was cancelled", ev.loc(), st)
        if failed and s in AFTER + ("run_backup",):
            self.report("C16.order", f"{s} follows in the same attempt although {failed} failed",
                        ev.loc(), st)
        if s == "run_backup":
            if not held:
                self.report("C16.slot", "the backup runs without a slot of a worker semaphore",
                            ev.loc(), st)
            if lead is True:
                self.report("C16.leader", "a backup is made although another server made it",
                            ev.loc(), st)
            if "_clean" not in steps:
                self.report("C16.order", "incomplete revisions of earlier attempts are not removed "
                            "before the backup", ev.loc(), st)
            tags = ev.args[1:] + tuple((ev.kw or {}).values())
            if not any(mentions_app(t, "Schedule.next") for t in tags):
                self.report("C16.tags", "the tags of the revision are not those of the schedule: "
                            + ", ".join(show(t) for t in tags), ev.loc(), st)
        if s in AFTER and lead is not True and not failed:
            if "run_backup" not in steps:
                self.report("C16.order", f"{s} is done before the backup", ev.loc(), st)
        for a, b in ORDER:
            if s == a and b in steps:
                self.report("C16.order", f"{a} is done after {b}", ev.loc(), st)
        if lead is True and s in ("run_expiry", "run_gc", "push_metadata"):
            self.report("C16.leader", f"{s} is done although another server made the backup",
                        ev.loc(), st)

    def wait(self, ev, st):
        steps, held, failed, upd, kind, err, lead, canc = st.mon
        t = ev.args[0]
        self.started = True
        self.ctx.saw("waits", f"{self.entry}: {ev.loc()}")
        if canc:
            self.report("C16.cancel", "the loop goes on although the task was cancelled", ev.loc(), st)
        self.attempt_over(st, ev.loc())
        sched = mentions_app(t, "Schedule.next")
        back = attrs_in(delay_of(t)) & set(self.counters) or delay_of(t)[0] == "c" or any(
            self.is_counter(s, st) for s in subterms(t))
        new = "schedule" if sched else "backoff" if back else "other"
        if new == "backoff":
            self.delays[delay_of(t)] = (ev.loc(), "connect" in steps and failed is not None)
        if err is True and new == "schedule" and "next" in steps:
            self.report("C16.backoff", "after a failed attempt the next one waits for the "
                        "schedule instead of the backoff", ev.loc(), st)
        if err is False and new == "backoff" and not failed:
            self.report("C16.schedule", "without a failure the next attempt does not wait for "
                        "the schedule", ev.loc(), st)
        if new == "schedule":
            self.ctx.saw("scheduled waits", ev.loc())
        st.mon = ((), held, None, (), new, None, None, canc)

    def is_counter(self, s, st):
        return any(v == s and k[1] in self.counters for k, v in st.heap.items() if not is_c(v))

    def attempt_over(self, st, loc):
        steps, held, failed, upd, kind, err, lead, canc = st.mon
        if held:
            self.report("C16.slot", "the worker slot is kept when the attempt is over", loc, st)
        if failed:
            self.failing.setdefault(upd, (failed, loc, st.path()))
        elif "run_backup" in steps:
            for s in AFTER:
                if s not in steps:
                    self.report("C16.order", f"{s} is missing after a successful backup", loc, st)
            self.success.append((upd, loc, st.path()))
        elif lead is True:
            for s in ("pull_metadata", "run_callback"):
                if s not in steps:
                    self.report("C16.leader", f"{s} is missing when another server made the backup",
                                loc, st)
            self.success.append((upd, loc, st.path()))


def cycle(ctx):
    import ast
    entry = "Job.run_forever"
    m = Cycle(ctx, entry)
    cls = ctx.p.cls("Job")
    # numbers a job keeps: attributes incremented or computed from others
    m.counters = tuple(sorted(
        {t.attr for n in ast.walk(cls.node)
         if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign))
         for t in (n.targets if isinstance(n, ast.Assign) else [n.target])
         if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"}
        - {"log", "source", "status", "next_time", "next_tags", "taskid", "_task", "last_config",
           "daemon", "name", "path", "logfile", "run_immediately"}))
    opaque = {s for s in STEPS if ctx.p.try_method(*s.split("."))}
    subst = dict(WAITS)
    subst.update({q: safe for q in SAFE})
    opaque.add("Repository.get_history")
    I, out, exc = ctx.run(entry, m, opaque=opaque, subst=subst, cancel=True)
    for v, st in out:
        m.report("C16.survive", "the loop ends", "", st)
    for e, st in exc:
        steps, held, failed, upd, kind, err, lead, canc = st.mon
        if failed and not canc and "Cancelled" not in e[1] and e[1] != "AssertionError":
            m.report("C16.survive", f"the loop ends after the failure of {failed}", "", st)
    if not m.delays and m.failing:
        ctx.finding("C16.backoff", entry, "no wait depends on the number of failures", "")
        return
    backoff(ctx, entry, m)
    ctx.need("steps", 6)
    ctx.need("waits")
    if not ctx.sites.get("scheduled waits"):
        ctx.finding("C16.schedule", entry, "no attempt waits for the schedule", "")


def backoff(ctx, entry, m):
    if m.failing and all(is_c(v) for upd in m.failing for a, v in upd):
        ctx.finding("C16.backoff", entry, "repeated failures do not make the delay grow", "")
    for upd, (step, loc, path) in m.failing.items():
        d = dict(upd)
        if not d:
            ctx.finding("C16.backoff", entry, f"a failure of {step} does not delay the next attempt",
                        loc, path)
            continue
        if all(is_c(v) for v in d.values()):
            continue        # the first iteration
        for t, (wl, same) in m.delays.items():
            if t[0] == "c":
                continue
            env = {a: 0 for a in m.counters}
            for a, v in m.inits.items():
                if is_c(v) and isinstance(v[2], (int, float)):
                    env[a] = v[2]
            seq = []
            try:
                for i in range(60):
                    if same:
                        seq.append(num(t, env))
                    env = dict(env, **{a: num(v, env) for a, v in d.items()})
                    if not same:
                        seq.append(num(t, env))
            except (ValueError, KeyError, IndexError, ZeroDivisionError, OverflowError):
                ctx.notes.append(f"delay not evaluated: {show(t)} with {[(a, show(v)) for a, v in upd]}")
                continue
            ctx.saw("delays", f"{show(t)}: {seq[:10]} ... {seq[-1]}")
            if any(b < a for a, b in zip(seq, seq[1:])) or not seq[12] > seq[0]:
                ctx.finding("C16.backoff", entry, "repeated failures do not make the delay grow: "
                            f"{seq[:12]}", wl, path)
            if seq[-1] > 86400 or seq[-1] > seq[40]:
                ctx.finding("C16.backoff", entry, f"the delay is not bounded: {seq[-1]} s", wl, path)
            if seq[0] < 10:
                ctx.finding("C16.backoff", entry, f"the first retry waits {seq[0]} s only", wl, path)
    counters = {a for upd in m.failing for a, v in upd
                if v[0] == "bin" and v[1] == "+" and a in attrs_in(v)}
    for upd, loc, path in m.success:
        for a in counters:
            if dict(upd).get(a) != C(0):
                ctx.finding("C16.reset", entry, f"a successful attempt does not reset {a}", loc, path)


class Leader(Monitor):
    """state: (is a recent backup of the leader known, waited since the last poll)"""
    branches = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return (False, 0, True)

    def event(self, ev, st, I):
        recent, polls, waited = st.mon
        if ev.kind == "fact":
            a, v = ev.args[0], ev.args[1] == TRUE
            if a[0] == "cmp" and a[1] in ("<", "<=", ">", ">=") and any(
                    s == C("last_time") for s in subterms(a)) and any(
                    s[0] == "sym" and s[1] == "next_time" for s in subterms(a)):
                small = a[1] in ("<", "<=")
                bound = [num(x, {}) for x in a[2:4] if self.isnum(x)]
                left = self.isnum(a[3])
                if v == (small == left):
                    recent = not bound or abs(bound[0]) <= 3600
                    if not recent:
                        self.ctx.finding("C16.leader", self.entry, "a backup of another server "
                                         f"counts although it may be {bound[0]} s old", ev.loc(),
                                         st.path())
                        recent = True
                self.ctx.saw("leader conditions", ev.loc())
        elif ev.kind == "wait" or ev.kind == "call" and ev.name == "asyncio.sleep":
            waited = True
        elif ev.kind == "await" and ev.args[0][0] == "app" and \
                ev.args[0][1].endswith("fetch_status"):
            if not waited:
                self.ctx.finding("C16.wait", self.entry, "another server is polled without waiting",
                                 ev.loc(), st.path())
            waited = False
        st.mon = (recent, polls, waited)

    @staticmethod
    def isnum(t):
        try:
            num(t, {})
            return True
        except (ValueError, KeyError):
            return False


def leader(ctx):
    entry = "Job._wait_for_leader"
    m = Leader(ctx, entry)
    I, out, exc = ctx.run(entry, m, subst=WAITS, opaque={"Client.fetch_status",
                          "Repository.get_history", "ClientManager.__init__", "ClientManager.close",
                          "ClientManager.__getitem__", "ClientManager.__iter__"})
    for v, st in out:
        ctx.saw("leader results", show(v)[:40])
        if (v == TRUE or not is_c(v) and st.facts.get(v) is not False) and not st.mon[0]:
            ctx.finding("C16.leader", entry, "the backup is skipped although no other server is "
                        "known to have made one recently", "", st.path())
    ctx.need("leader results")


class Woken(Monitor):
    """state: (event whose setting ended the last wait and that is still set, other awaits since a wait)"""
    branches = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return (None, True)

    def on_throw(self, exc, st, I):
        st.mon = (None, st.mon[1])

    def event(self, ev, st, I):
        pending, away = st.mon
        if ev.kind == "wait":
            evs = [a for a in ev.args if a[0] == "attr"]
            self.ctx.saw("waits for requests", f"{self.entry}: {ev.loc()}")
            if pending is not None and pending in evs:
                self.ctx.finding("C16.request", self.entry, f"waits for {show(pending)}, which was set when the last "
                                 "wait ended and never cleared: this wait, and each one after it, ends at once",
                                 ev.loc(), st.path())
            away = False
        elif ev.kind in ("call", "mutate") and ev.name.rsplit(".", 1)[-1] == "clear" and ev.args:
            o = ev.args[0]
            if o[0] == "attr" and o[2] == "run_immediately":
                if away:
                    self.ctx.finding("C16.request", self.entry, f"{show(o)} is cleared although it was not waited for "
                                     "since other things were done: a request made meanwhile is lost", ev.loc(),
                                     st.path())
                if pending == o:
                    pending = None
        elif ev.kind == "setattr" and ev.name == "run_immediately":
            pending = None
        elif ev.kind == "call" and ev.name.startswith("repo:") and any(
                ev.name.endswith("." + x) for x in STEPS if x not in ("Schedule.next", "Repository.connect")):
            away = True
        st.mon = (pending, away)


def requests(ctx):
    def woken(I, fv, args, kw, st, node, fr):
        r = wait_model(I, fv, args, kw, st, node, fr)
        for v, s in r:
            if v == TRUE:
                evs = [a for a in tuple(args) + tuple(dict(kw or {}).values()) if a[0] == "attr"
                       and a[2] == "run_immediately"]
                s.mon = (evs[0] if evs else None, s.mon[1])
        return r
    waits = {q: woken for q in WAITS}
    for entry, keep in (("Job.run_forever", ()), ("Job._wait_for_leader", ("Job._wait_for_leader",))):
        if not ctx.p.try_method(*entry.split(".")):
            continue
        opaque = {s for s in STEPS if s not in keep and ctx.p.try_method(*s.split("."))}
        subst = dict(waits)
        subst.update({q: safe for q in SAFE})
        opaque |= {"Repository.get_history", "Client.fetch_status", "ClientManager.__init__", "ClientManager.close",
                   "ClientManager.__getitem__", "ClientManager.__iter__"}
        m = Woken(ctx, entry)
        I, out, exc = ctx.run(entry, m, opaque=opaque, subst=subst)
        for v, st in out:
            if st.mon[0] is not None:
                ctx.finding("C16.request", entry, f"{show(st.mon[0])} is still set although its request is answered",
                            "", st.path())
    f = ctx.p.try_method("BackyAPI", "run_job")
    if f is not None:
        class Set(Monitor):
            branches = True

            def init(self):
                return False

            def event(self, ev, st, I):
                if ev.kind in ("call", "mutate") and ev.name.rsplit(".", 1)[-1] == "set" and ev.args and \
                        ev.args[0][0] == "attr" and ev.args[0][2] == "run_immediately":
                    st.mon = True
        I, out, exc = ctx.run(f, Set(), opaque={"BackyAPI.get_job"})
        for v, st in [o for o in out] + [(e, x) for e, x in exc if e[1].endswith("HTTPAccepted")]:
            if not st.mon:
                ctx.finding("C16.request", "BackyAPI.run_job", "a run is acknowledged but not asked for", f.qual,
                            st.path())
    ctx.need("waits for requests")


# ------------------------------------------------------- attempts one by one
PASS = ("pull_metadata", "run_expiry", "push_metadata", "run_gc", "run_callback")
OK = {}
SCRIPTS = [
    [OK, OK, OK],
    [{"rc": 1}, {"rc": -9}, {"rc": 3}, {"rc": 1}, OK, OK],
    [{"rc": -15}, OK, {"rc": 1}, OK],
    [{"fail": "backup"}, {"fail": "backup"}, OK],
    [{"fail": "next"}, OK, OK],
    [{"fail": "next"}, {"fail": "next"}, {"rc": 1}, OK, OK],
    [{"fail": "connect"}, OK, OK],
    *[[{"fail": s}, OK, OK] for s in PASS + ("scan", "_clean")],
    [{"leader": True}, OK, {"leader": True}],
    [{"rc": 1}, {"leader": True}, OK],
    [{"rc": 1}, {"rc": 1, "woken": True}, {"leader": True}, OK],
    [{"woken": True, "leader": True}, OK],
    [{"leader": True, "fail": "pull_metadata"}, {"leader": True}, OK],
    [{"duration": 599}, {"duration": 601}, {"duration": None}],
    [{"duration": 30, "rc": 1}, {"duration": 3000, "rc": 1}, {"duration": None, "woken": True}],
]


class Script(Times):
    """state: what was done. ("wait", kind of the schedule's time, seconds) | (step, ...)"""
    faults = False

    def __init__(self, script):
        self.script = script

    def init(self):
        return ()

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name in ("cm.enter", "cm.exit", ".acquire", ".release") and ev.args and \
                ev.args[0][0] == "obj" and ev.args[0][2] == "semaphore":
            how = "slot" if ev.name in ("cm.enter", ".acquire") else "free"
            if not st.mon or st.mon[-1] != (how, ev.args[0][1]):
                st.mon = st.mon + ((how, ev.args[0][1]),)

    def now(self, st):
        return self.script[min(sum(x[0] == "attempt" for x in st.mon), len(self.script)) - 1]


def attempts(ctx):
    p = ctx.p
    f = p.try_method("Job", "run_forever")
    need = ("Job.run_backup", "Schedule.next", "Revision.create", "Job._wait_for_leader") + tuple(
        "Job." + s for s in PASS)
    if f is None or not all(p.try_method(*n.split(".")) for n in need):
        return
    ctx.rule("C16.attempts", "scripted sequences of attempts, step by step (constant propagation)")
    for script in SCRIPTS:
        m = Script(script)
        h = Heap()
        revs = {d: h.of("backy.revision.Revision", timestamp=C(NOW - 900), server=C(""), uuid=C("r"),
                        stats=h.dict({"duration": C(d)})) for d in (None, 30, 599, 601, 3000)}
        # before and after the last complete one: one that took the other time, and an interrupted one
        older = {fast: h.of("backy.revision.Revision", timestamp=C(NOW - 90000), server=C(""), uuid=C("o"),
                            stats=h.dict({"duration": C(5000 if fast else 10)})) for fast in (True, False)}
        newer = h.of("backy.revision.Revision", timestamp=C(NOW - 300), server=C(""), uuid=C("n"),
                     stats=h.dict({"bytes_written": C(0)}))
        sema = {k: ("obj", k, "semaphore") for k in ("slow", "fast")}
        plan, _ = sched(h, {"daily": 86400})
        repo = h.of("backy.repository.Repository", history=h.seq("list", []), schedule=plan, _lock_fds=h.dict({}),
                     log=("sym", "log", None))
        event = h.new("event")
        job = h.of("backy.daemon.scheduler.Job", name=C("job"), status=C(""), run_immediately=event,
                   log=("sym", "log", None), taskid=C(""), next_time=NONE, next_tags=NONE, errors=C(0), backoff=C(0),
                   source=h.of("backy.source.AsyncCmdLineSource", repository=repo, log=("sym", "log", None)),
                   daemon=h.of("backy.daemon.BackyDaemon", backup_semaphores=h.dict(sema), peers=h.dict({})))
        m.ext = dict(Times.ext)
        m.ext["event", "clear"] = lambda I, A, kw, st: NONE
        m.ext["event", "is_set"] = lambda I, A, kw, st: FALSE
        for n in ("acquire", "release"):
            m.ext["semaphore", n] = lambda I, A, kw, st: None
        sub = dict(subst31())

        def step(name, answer=lambda now, st: NONE, note=lambda I, a: ()):
            def g(I, fv, args, kw, st, node, fr):
                st = st.copy()
                st.mon = st.mon + ((name, *note(I, [*args, *dict(kw or {}).values()])),)
                now = m.now(st)
                if now.get("fail") == name.replace("Schedule.", ""):
                    I.throw(("exc", "RuntimeError", True), st)
                    return []
                v = answer(now, st)
                return [v if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], State) else (v, st)]
            return g

        def connect(I, fv, args, kw, st, node, fr):
            st = st.copy()
            if not st.mon or st.mon[-1][0] != "connect":
                st.mon = st.mon + (("attempt",),)
            st.mon = st.mon + (("connect",),)
            now = m.now(st)
            d = now.get("duration", "none")
            st.heap[(st.heap[(repo, "history")], "#c")] = (
                ("v", older[d < 600]), ("v", revs[d]), ("v", newer)) if d in revs and d is not None else (("v", newer),)
            if now.get("fail") == "connect":
                I.throw(("exc", "RuntimeError", True), st)
                return []
            return [(NONE, st)]

        def upcoming(now, st):
            n = sum(x[0] == "attempt" for x in st.mon)
            o = ("obj", ("tags", n), "set")
            st.heap[(o, "#c")] = (("v", C(f"tag{n}")),)
            return ("tuple", (C(NOW + 100000 + n), o)), st

        def create(I, fv, args, kw, st, node, fr):
            st = st.copy()
            ts = [value(x, st) for x in [*args, *dict(kw or {}).values()] if x[0] == "obj" and x[2] in (
                "set", "list", "tuple")]
            st.mon = st.mon + (("create", tuple(sorted(x[1] for x in ts[0][1])) if ts and ts[0] else None),)
            return [(h_rev, st)]
        h_rev = h.of("backy.revision.Revision", uuid=C("new"), repository=repo)

        def wait(I, fv, args, kw, st, node, fr):
            st = st.copy()
            a = args[0] if args else next(iter(dict(kw).values()))
            if not any(x == event for x in [*args, *dict(kw or {}).values()]):
                a = ("sym", "deaf", None)
            st.mon = st.mon + (("wait", fv_name(I, fv), a[2] if is_c(a) else None),)
            n = sum(x[0] == "attempt" for x in st.mon)
            if ("cancelled",) in st.mon:
                return []     # the loop survived; C16.cancel is about that
            if n > len(m.script) or sum(x[0] == "wait" for x in st.mon) > len(m.script) + 2:
                st.mon = st.mon + (("cancelled",),)
                I.throw(("exc", "asyncio.CancelledError", True), st)
                return []
            return [(TRUE if m.now(st).get("woken") else NONE, st)]
        fv_name = lambda I, fv: I.p.funcs[fv[1]].name
        none = lambda I, fv, args, kw, st, node, fr: [(NONE, st)]
        for n, g in (("Repository.connect", connect), ("Repository._clean", step("_clean")),
                     ("Repository.scan", step("scan")), ("Schedule.next", step("next", upcoming)),
                     ("Revision.create", create), ("Revision.materialize", none), ("Job.update_status", none),
                     ("AsyncCmdLineSource.backup", step("backup", lambda now, st: C(now.get("rc", 0)))),
                     ("Job._wait_for_leader", step("leader", lambda now, st: C(bool(now.get("leader"))))),
                     *[("Job." + s, step(s)) for s in PASS]):
            q = p.try_method(*n.split("."))
            if q is not None:
                sub[q.qual] = g
        for q in SAFE:
            sub[q] = safe
        for q in WAITS:
            sub[q] = wait
        case = "attempts " + ", ".join(" ".join(f"{k} {v}" for k, v in s.items()) or "ok" for s in script)
        try:
            _, out, exc = ctx.run(f, m, st=h.state(m), self_val=job, subst=sub, lookup=False, scan=False,
                                  max_steps=60000)
        except Budget:
            ctx.saw("undecided", f"{case}: too many paths")
            continue
        ends = {st.mon for e, st in exc if "Cancelled" in e[1]} | {st.mon for _, st in out}
        if len(ends) != 1 or m.vague or any("Cancelled" not in e[1] and e[1] != "AssertionError" for e, st in exc):
            ctx.saw("undecided", f"{case}: {len(ends)} ways, {[e for e, st in exc][:2]}")
            continue
        msg = judge(script, next(iter(ends)))
        if msg == "?":
            ctx.saw("undecided", f"{case}: a delay is not known")
            continue
        ctx.saw("decided", case)
        if msg:
            ctx.finding("C16.attempts", "Job.run_forever", f"{case}: {msg}", f.loc)


def judge(script, trace):
    """what is wrong with the trace, or None"""
    parts, cur = [], None
    for x in trace:
        if x[0] == "attempt":
            cur = []
            parts.append(cur)
        elif cur is not None:
            cur.append(x)
    errors, last = 0, 0
    for n, (want, did) in enumerate(zip(script, parts), 1):
        names = [x[0] for x in did]
        waits = [x for x in did if x[0] == "wait"]
        if not waits:
            return f"attempt {n} does not wait"
        failed_early = want.get("fail") in ("connect", "next")
        kind, secs = waits[0][1:]
        if secs is None:
            return "?"
        if failed_early:
            errors += 1
        delay = secs - NOW if kind == "time_or_event" else secs
        if errors == 0:
            if kind != "time_or_event" or secs != NOW + 100000 + n:
                return f"attempt {n} does not wait for the time the schedule says"
        else:
            if not 10 <= delay <= 86400:
                return f"attempt {n}, after {errors} failures, waits for {delay} s"
            if delay < last:
                return f"attempt {n}, after {errors} failures, waits less ({delay} s) than the one before ({last} s)"
            last = delay
        if failed_early:
            if "backup" in names or "create" in names:
                return f"attempt {n} makes a backup although {want['fail']} failed"
            continue
        if want.get("woken"):
            if "leader" in names:
                return f"attempt {n}, a run was requested: other servers are asked nevertheless"
        elif "leader" not in names:
            return f"attempt {n}: other servers are not asked"
        led = want.get("leader") and not want.get("woken")
        made = [x for x in did if x[0] == "create"]
        if led:
            if "backup" in names or made:
                return f"attempt {n} makes a backup although another server did"
            steps = ["pull_metadata", "run_callback"]
        elif want.get("fail") == "_clean" and "backup" not in names:
            steps = []
        else:
            if not made or "backup" not in names:
                return f"attempt {n} makes no backup"
            if made[0][1] is not None and made[0][1] != (f"tag{n}",):
                return f"attempt {n}: the backup gets the tags {made[0][1]} instead of ['tag{n}']"
            at = names.index("backup")
            slots = [x for x in did[:at] if x[0] in ("slot", "free")]
            if not slots or slots[-1][0] != "slot":
                return f"attempt {n}: the backup holds no slot"
            d = want.get("duration")
            if slots[-1][1] != ("fast" if d is not None and d < 600 else "slow"):
                return f"attempt {n}: the backup takes a {slots[-1][1]} slot; the last one took " + (
                    f"{d} s" if d else "unknown time")
            steps = list(PASS)
        bad = want.get("rc") or want.get("fail") == "backup"
        if bad:
            errors += 1
            after = [x for x in names if x in PASS]
            if after:
                return f"attempt {n}: {after[0]} follows although the backup failed"
            continue
        fail = want.get("fail")
        got = [x for x in names if x in PASS]
        if fail in steps:
            steps = steps[:steps.index(fail) + 1]
        if fail in ("scan", "_clean"):
            errors += fail in names
            if fail not in names:
                errors, last = 0, 0
            continue
        if [x for x in steps if x not in got]:
            return f"attempt {n}: {[x for x in steps if x not in got][0]} is missing"
        if fail and fail in got:
            errors += 1
        else:
            errors, last = 0, 0
    if len(parts) <= len(script):
        return f"the loop ends in attempt {len(parts)}"
    return None


def check(ctx):
    ctx.rule("C16.request", "a request to run ends one wait, and is not lost")
    ctx.rule("C16.survive", "the loop ends only when its task is cancelled")
    ctx.rule("C16.wait", "no step is repeated without waiting")
    ctx.rule("C16.backoff", "the delay after failures grows and is bounded")
    ctx.rule("C16.reset", "success resets the number of failures")
    ctx.rule("C16.schedule", "without a failure the next attempt waits for the schedule")
    ctx.rule("C16.slot", "the backup runs in a worker slot, released afterwards")
    ctx.rule("C16.order", "order and completeness of the steps of an attempt")
    ctx.rule("C16.tags", "the revision gets the tags the schedule asks for")
    ctx.rule("C16.leader", "a backup is skipped only if another server made one recently")
    ctx.rule("C16.cancel", "cancelling the task ends the loop")
    attempts(ctx)
    cycle(ctx)
    leader(ctx)
    requests(ctx)
