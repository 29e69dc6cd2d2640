"""Servers that share a job: one makes the backup.

Constant propagation through Job._wait_for_leader on abstract peers (each of
them unreachable, without the job, or with some number of backups and one of
the states a status can be in) and through BackyDaemon.status on abstract
histories; the outcome is compared with the definition. That the loop does
what the answer says is C16's business, that the right job is asked for C21's."""
import itertools
import re

from ..interp import Budget
from .c31 import NOW, Heap, Times, history, sched, value
from .util import *

W = ("sym", "world", None)
FAILS = {"down": "aiohttp.ClientError", "slow": "asyncio.TimeoutError"}
E = "Job._wait_for_leader"


class World(Times):
    """Peers. plan: {server: [answer to the first, second... question]}, an answer being a list object or the
    name of a failure. state: what was done: ("ask", server) | ("wait", seconds)"""
    exact = True

    def __init__(self, plan, waits):
        self.plan, self.waits = plan, waits
        self.ext = dict(Times.ext)
        self.ext.update({"await": self.result, "asyncio.gather": self.gather, "re.escape": _escape,
                         "asyncio.create_task": _same, "asyncio.ensure_future": _same, "asyncio.wait_for": _same,
                         "asyncio.timeout": None})
        del self.ext["asyncio.timeout"]

    def init(self):
        return ()

    def answer(self, fut, st):
        server = fut[2][0][2]
        n = sum(x == ("ask", server) for x in st.mon)
        st.mon = st.mon + (("ask", server),)
        plan = self.plan.get(server) or ["down"]
        return plan[min(n, len(plan) - 1)]

    def result(self, I, v, st):
        if v[0] == "app" and v[1] == "fut":
            a = self.answer(v, st)
            if isinstance(a, str):
                I.throw(("exc", FAILS[a], True), st)
                return []
            return [(a, st)]
        if v[0] == "obj" and (v, "gathered") in st.heap:
            return [(v, st)]
        return None

    def gather(self, I, A, kw, st):
        futs = []
        for a in A:
            v = a[1] if a[0] == "star" else a
            if v[0] == "obj":
                its = st.heap.get((v, "#c"), ())
                if not all(i[0] == "v" for i in its):
                    return None
                futs += [i[1] for i in its]
            elif v[0] == "tuple":
                futs += list(v[1])
            else:
                futs.append(v)
        if not all(f[0] == "app" and f[1] == "fut" for f in futs):
            return None
        res = []
        for f in futs:
            a = self.answer(f, st)
            if isinstance(a, str):
                if kw.get("return_exceptions") != TRUE:
                    I.throw(("exc", FAILS[a], True), st)
                    return []
                a = ("exc", FAILS[a], True)
            res.append(("v", a))
        o = ("obj", ("gathered", len(st.mon)), "list")
        st.heap[(o, "#c")] = tuple(res)
        st.heap[(o, "gathered")] = TRUE
        return o


def _escape(I, A, kw, st):
    return C(re.escape(A[0][2])) if len(A) == 1 and is_str(A[0]) else None


def _same(I, A, kw, st):
    return A[0] if A and A[0][0] == "app" and A[0][1] == "fut" else None


def status(h, revs, last=None, state="running", nxt=None):
    t = lambda x: NONE if x is None else C(x)
    return h.seq("list", [h.dict({
        "job": C("job"), "sla": C("OK"), "sla_overdue": C(0), "status": C(state), "last_time": t(last),
        "last_tags": C("daily"), "last_duration": C(10), "next_time": t(nxt), "next_tags": NONE,
        "manual_tags": C(""), "problem_reports": C(4), "unsynced_revs": C(4), "local_revs": C(revs)})])


def drive(ctx, case, h, local, plan, waits=(NONE,)):
    """(answer, what was done) or None"""
    f = ctx.p.try_method("Job", "_wait_for_leader")
    m = World(plan, waits)
    own = history(h, [(NOW - 5000 + i, "a", True) for i in range(local)])
    m.ext["event", "clear"] = lambda I, A, kw, st: NONE
    event = h.new("event")
    job = h.of("backy.daemon.scheduler.Job", name=C("job"), status=C(""), run_immediately=event,
               repository=h.of("backy.repository.Repository", history=own),
               daemon=h.of("backy.daemon.BackyDaemon", peers=h.dict(
                   {s: h.dict({"url": C("http://" + s), "token": C("t")}) for s in plan})))
    p = ctx.p

    def client(I, fv, args, kw, st, node, fr):
        a = [*args[1:], *kw.values()]
        if len(a) != 1 or not is_str(a[0]):
            return None
        o = ("obj", ("client", a[0][2]), "backy.daemon.api.Client")
        st = st.copy()
        st.heap[(o, "server_name")] = a[0]
        return [(o, st)]

    def fetch(I, fv, args, kw, st, node, fr):
        s = st.heap.get((args[0], "server_name"))
        return [(("app", "fut", (s,), (), 0), st)] if s is not None else None

    def wait(I, fv, args, kw, st, node, fr):
        st = st.copy()
        n = sum(x[0] == "wait" for x in st.mon)
        st.mon = st.mon + (("wait", args[0][2] if args and is_c(args[0]) else None),)
        if n >= 5:
            I.throw(("exc", "asyncio.CancelledError", True), st)
            return []
        # (a request sets this event, no other)
        return [(waits[min(n, len(waits) - 1)] if event in [*args, *kw.values()] else NONE, st)]

    none = lambda I, fv, args, kw, st, node, fr: [(NONE, st)]
    sub = {}
    for cls, name, fn in (("ClientManager", "__getitem__", client), ("Client", "fetch_status", fetch),
                          ("ClientManager", "close", none), ("Job", "update_status", none)):
        g = p.try_method(cls, name)
        if g is not None:
            sub[g.qual] = fn
    sub["backy.utils.delay_or_event"] = wait
    sub["backy.utils.time_or_event"] = wait
    if p.try_method("Job", "repository"):
        sub[p.method("Job", "repository").qual] = \
            lambda I, fv, args, kw, st, node, fr: [(st.heap.get((args[0], "repository")), st)]
    from .c31 import subst as base
    sub.update(base())
    try:
        I, out, exc = ctx.run(f, m, st=h.state(m), args={f.params()[1]: C(NOW)}, self_val=job, subst=sub,
                              lookup=False, scan=False, max_steps=30000)
    except Budget:
        ctx.saw("undecided", f"{case}: too many paths")
        return None
    res = {(show(v), st.mon): (v, st) for v, st in out}
    if len(res) != 1 or not all(is_c(v) for v, _ in res.values()):
        sure = [(e, st) for e, st in exc if e[0] == "exc" and e[2]]
        if not res and sure and len(sure) == len(exc):
            ctx.saw("decided", case)
            return ("raises", sure[0][0][1]), sure[0][1].mon, sure[0][1]
        ctx.saw("undecided", f"{case}: {[(show(v)[:60], st.mon) for v, st in out][:3]}")
        return None
    if any(e[0] == "exc" and e[2] and e[1] != "AssertionError" for e, _ in exc):
        ctx.saw("undecided", f"{case}: or raises")
        return None
    ctx.saw("decided", case)
    v, st = next(iter(res.values()))
    return ("is", v[2]), st.mon, st


def select(ctx):
    """Whom to wait for: the peer with the most backups, if it has more than this server."""
    kinds = ("down", "slow", "none", 0, 1, 3, 5)
    for n in (0, 1, 2, 3):
        for peers in itertools.product(kinds if n < 3 else ("down", "none", 3, 5), repeat=n):
            for local in (0, 3):
                h = Heap()
                done = lambda k: status(h, k, last=NOW - 60)
                plan = {}
                for i, k in enumerate(peers):
                    plan[f"s{9 - i}"] = [k] if k in FAILS else [h.seq("list", [])] if k == "none" else \
                        [status(h, k), done(k)]
                case = f"{local} backups here, peers: {peers}"
                r = drive(ctx, case, h, local, plan)
                if r is None:
                    continue
                (how, v), did, st = r
                best = max([k for k in peers if isinstance(k, int)] + [0])
                leaders = {f"s{9 - i}" for i, k in enumerate(peers) if k == best and k > local}
                waited = next((i for i, x in enumerate(did) if x[0] == "wait"), None)
                followed = {x[1] for x in did[waited:] if x[0] == "ask"} if waited is not None else set()
                say = lambda msg: ctx.finding("C27.leader", E, f"{case}: {msg}", "", st.path())
                if how == "raises":
                    say(f"raises {v}: the job counts as failed")
                elif leaders and not followed & leaders:
                    say("does not wait for the one with the most backups, "
                        + ("but for " + ", ".join(followed) if followed else "several servers make it"))
                elif followed - leaders:
                    say("waits for a server that does not have more backups than this one")
                elif not leaders and v is not False:
                    say("no server makes the backup")
                elif leaders and v is not True:
                    say("the backup made there in the meantime does not count")


def follow(ctx):
    """What the state of the leader means."""
    for last, state, nxt in itertools.product(
            (None, NOW - 240, NOW - 290, NOW - 310, NOW - 3600, NOW - 86400, NOW - 86400 * 2 - 10, NOW + 30),
            ("", "running (slow)", "waiting for deadline"),
            (None, NOW - 3600, NOW, NOW + 290, NOW + 310, NOW + 86400 + 10)):
        for later, waits in (("done", (NONE,)), ("down", (NONE,)), ("slow", (NONE,)), ("stopped", (NONE,)),
                             ("same", (NONE,)), ("unknown", (NONE,)), ("done", (TRUE,))):
            if later != "done" and (last, state, nxt) not in (
                    (None, "running (slow)", None), (NOW - 3600, "waiting for deadline", NOW + 290)):
                continue
            h = Heap()
            first = status(h, 9, last, state, nxt)
            second = {"done": lambda: status(h, 9, NOW + 600, "finished", NOW + 86400),
                      "stopped": lambda: status(h, 9, last, "", None), "unknown": lambda: h.seq("list", []),
                      "same": lambda: first}.get(later, lambda: later)()
            case = f"leader {state!r}, last {last and last - NOW}, next {nxt and nxt - NOW}, then " + (
                "a run is requested" if waits == (TRUE,) else later)
            r = drive(ctx, case, h, 3, {"s0": [first, second]}, waits)
            if r is None:
                continue
            (how, v), did, st = r
            waited = any(x[0] == "wait" for x in did)
            say = lambda msg: ctx.finding("C27.follow", E, f"{case}: {msg}", "", st.path())
            if later == "same":
                # still waiting when the analysis stops looking
                if not (how == "raises" and sum(x[0] == "wait" for x in did) >= 5):
                    say("does not wait any longer although the leader is still at it")
                continue
            if how == "raises":
                say(f"raises {v}")
                continue
            recent = last is not None and NOW - last < 300
            if recent:
                want, wait = True, False
            elif not state or nxt is not None and nxt - NOW > 300:
                want, wait = False, False
            else:
                want, wait = later == "done" and waits == (NONE,), True
            if waited and not wait:
                say("waits although it is decided")
            elif v is True and not want:
                say("no backup is made")
            elif v is not want:
                say("another backup is made although the leader made one" if recent or waited
                    else "does not wait for the backup of the leader")
            elif wait and not waited:
                say("does not wait for the backup of the leader")
            ws = [x[1] for x in did if x[0] == "wait" and isinstance(x[1], (int, float))]
            if any(not 0 < x <= 3600 for x in ws):
                say(f"asks again after {ws[0]} s")


# (timestamp, complete, server, tags, tags known to be there)
HISTORIES = [
    [],
    [(NOW - 500, True, "", "a", "a")],
    [(NOW - 500, False, "", "a", "a")],
    [(NOW - 700, True, "", "ab", "ab"), (NOW - 500, True, "x", "a", "a"), (NOW - 80, False, "", "a", "a")],
    [(NOW - 700, True, "x", "ab", "a"), (NOW - 500, True, "x", "", "a"), (NOW - 90, True, "", "b", "b")],
    [(NOW - 700, True, "x", "ab", "ab"), (NOW - 500, True, "", "b", "a"), (NOW - 20, False, "y", "b", "a"),
     (NOW - 10, True, "y", "b", "a")],
]


def report(ctx):
    """What a server tells about its jobs."""
    f = ctx.p.try_method("BackyDaemon", "status")
    if f is None:
        return
    e = "BackyDaemon.status"
    p = ctx.p
    for k, revs in enumerate(HISTORIES):
        for flt in (None, "^job1$"):
            h = Heap()
            s, _ = sched(h, {"a": 100, "b": 1000})
            jobs, objs = {}, []
            for name, hist in (("job0", HISTORIES[k - 1]), ("job1", revs)):
                rs = [h.of("backy.revision.Revision", timestamp=C(ts), uuid=C(f"u{i}"), server=C(srv),
                           tags=h.seq("set", [C(t) for t in tags]), orig_tags=h.seq("set", [C(t) for t in orig]),
                           stats=h.dict({"bytes_written": C(1), **({"duration": C(i)} if clean else {})}))
                      for i, (ts, clean, srv, tags, orig) in enumerate(hist)]
                rp = h.of("backy.repository.Repository", history=h.seq("list", rs), schedule=s,
                          report_ids=h.seq("list", [C("r")] * k), sla=C(k % 2 == 0), sla_overdue=C(17 * k))
                jobs[name] = j = h.of(
                    "backy.daemon.scheduler.Job", name=C(name), status=C("running " + name), repository=rp, schedule=s,
                    next_time=C(NOW + k) if k % 2 else NONE, next_tags=h.seq("set", [C("a"), C("b")]))
            d = h.of("backy.daemon.BackyDaemon", jobs=h.dict(jobs))
            m = World({}, ())
            m.ext = dict(m.ext)
            m.ext[("pattern", "search")] = m.ext[("pattern", "match")] = m.ext[("pattern", "fullmatch")] = \
                lambda I, A, kw, st: C(bool(re.search(flt, A[1][2]))) if len(A) > 1 and is_str(A[1]) else None
            keep = lambda a: lambda I, fv, args, kw, st, node, fr: [(st.heap[args[0], a], st)] \
                if (args[0], a) in st.heap else None
            sub = {}
            for c, a in (("Job", "repository"), ("Job", "schedule"), ("Repository", "sla"),
                         ("Repository", "sla_overdue")):
                g = p.try_method(c, a)
                if g is not None:
                    sub[g.qual] = keep(a)
            if p.try_method("Repository", "scan"):
                sub[p.method("Repository", "scan").qual] = lambda I, fv, args, kw, st, node, fr: [(NONE, st)]
            arg = NONE if flt is None else h.new("pattern")
            case = f"status of history {k}, filter {flt}"
            try:
                I, out, exc = ctx.run(f, m, st=h.state(m), args={f.params()[1]: arg}, self_val=d, subst=sub,
                                      lookup=False, scan=False, max_steps=30000)
            except Budget:
                ctx.saw("undecided", f"{case}: too many paths")
                continue
            if not out and exc and all(x[0][0] == "exc" and x[0][2] for x in exc):
                ctx.finding("C27.report", e, f"{case}: raises {exc[0][0][1]}", "", exc[0][1].path())
                continue
            if len(out) != 1:
                ctx.saw("undecided", f"{case}: {len(out)} paths")
                continue
            v, st = out[0]
            its = st.heap.get((v, "#c"))
            if its is None or not all(i[0] == "v" for i in its):
                ctx.saw("undecided", f"{case}: {show(v)[:80]}")
                continue
            rows = [{kk[2]: x for kk, x in st.heap.get((i[1], "#k"), ()) if is_str(kk)} for i in its]
            names = [value(r.get("job", NONE), st) for r in rows]
            want = [("c", "job1")] if flt else [("c", "job0"), ("c", "job1")]
            ctx.saw("decided", case)
            if None not in names and sorted(map(repr, names)) != sorted(map(repr, want)):
                ctx.finding("C27.report", e, f"{case}: lists {[n[1] for n in names]}", "", st.path())
                continue
            clean = [r for r in revs if r[1]]
            row = next((r for r, n in zip(rows, names) if n == ("c", "job1")), None)
            if row is None:
                continue
            for key, x in (("local_revs", sum(not r[2] for r in clean)),
                           ("last_time", clean[-1][0] if clean else None),
                           ("unsynced_revs", sum(bool(r[2]) and set(r[3]) != set(r[4]) for r in clean)),
                           ("status", "running job1"), ("next_time", NOW + k if k % 2 else None),
                           ("sla_overdue", 17 * k), ("sla", "OK" if k % 2 == 0 else "TOO OLD"),
                           ("problem_reports", k),
                           ("last_duration", revs.index(clean[-1]) if clean else None),
                           ("last_tags", ",".join(sorted(clean[-1][3])) if clean else None),
                           ("next_tags", "a,b")):
                got = value(row[key], st) if key in row else NONE
                if got is None:
                    ctx.saw("undecided", f"{case}: {key}: {show(row[key])[:80]}")
                elif got != ("c", x):
                    ctx.finding("C27.report", e, f"{key} of a job with the history {k} is {got[1]!r} instead of "
                                f"{x!r}" if key in row else f"{key} is not reported", "", st.path())


def check(ctx):
    ctx.rule("C27.report", "the status a server reports of a job is that of its history")
    report(ctx)
    ctx.rule("C27.leader", "the reachable peer with the most complete backups of the job is waited for, if it has "
             "more than this server")
    ctx.rule("C27.follow", "no own backup exactly if the leader made one not more than five minutes before the "
             "planned time; waits while it may still do so")
    if ctx.p.try_method("Job", "_wait_for_leader"):
        select(ctx)
        follow(ctx)
    ctx.need("decided", 1)
