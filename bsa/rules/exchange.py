"""Push and pull of revision metadata, on small histories with stand-ins for the
peers (constant propagation): what is sent, written and removed in the end."""
from ..interp import Budget, State
from .c31 import Heap, NOW, Times, sched, subst as subst31, value
from .util import *

OWN, ERR = "", {
    "refused": ("aiohttp.ClientResponseError", 412), "gone": ("aiohttp.ClientResponseError", 404),
    "forbidden": ("aiohttp.ClientResponseError", 403), "broken": ("aiohttp.ClientResponseError", 500),
    "unavailable": ("aiohttp.ClientResponseError", 503),
    "away": ("aiohttp.ClientConnectionError", None), "late": ("asyncio.TimeoutError", None),
    "odd": ("aiohttp.ClientError", None)}


class Peers(Times):
    """state: what was done, in order: (what, server, uuid, ...)"""
    faults = False

    def init(self):
        return ()


class Rev:
    def __init__(self, uuid, server, tags, orig="=", trust="trusted", clean=True):
        self.uuid, self.server, self.tags, self.trust, self.clean = uuid, server, set(tags.split()), trust, clean
        self.orig = set(orig.split()) if orig != "=" else set(self.tags) if server else set()

    def key(self):
        return (self.uuid, self.server, frozenset(self.tags), frozenset(self.orig), self.trust)


class World:
    """the objects of one case, and the stand-ins"""

    def __init__(self, ctx, revs, remote, answers):
        self.ctx, p = ctx, ctx.p
        self.h = h = Heap()
        self.revs = {}
        self.spec = {}
        self.m = Peers()
        self.m.ext = dict(Times.ext)
        names = sorted({r.server for r in revs if r.server} | set(remote))
        peers = [n for n in names if n != "dead"]
        plan, _ = sched(h, {"daily": 86400})
        hist = h.new("list")
        ids = h.dict({})
        log = ("sym", "log", None)
        self.repo = repo = h.of("backy.repository.Repository", history=hist, _by_uuid=ids, schedule=plan,
                                _lock_fds=h.dict({}), log=log, path=("path", "repo"), name=C("job"))
        for n, r in enumerate(revs):
            self.make(r, n)
        for n, rs in remote.items():
            for i, r in enumerate(rs):
                self.make(r, i, (n, r.uuid))
        mine = [self.revs[r.uuid] for r in revs]
        h.h[(hist, "#c")] = tuple(("v", r) for r in mine)
        h.h[(ids, "#k")] = tuple((C(r.uuid), o) for r, o in zip(revs, mine))
        h.h[(ids, "#c")] = tuple(("v", C(r.uuid)) for r in revs)
        self.hist, self.ids = hist, ids
        self.clients = {n: h.of("backy.daemon.api.Client", server_name=C(n), log=log, session=("sym", "http", None))
                        for n in names}
        self.lists = {n: h.seq("list", [self.revs[n, r.uuid] for r in rs]) for n, rs in remote.items()}
        self.job = h.of("backy.daemon.scheduler.Job", name=C("job"), log=log, taskid=C("task"), status=C(""),
                        source=h.of("backy.source.AsyncCmdLineSource", repository=repo, log=log),
                        daemon=h.of("backy.daemon.BackyDaemon",
                                    peers=h.dict({n: h.dict({"url": C("u"), "token": C("t")}) for n in peers})))
        self.answers = answers
        sub = self.sub = dict(subst31())

        def put(name, g):
            f = p.try_method(*name.split("."))
            if f is not None:
                sub[f.qual] = g

        def client(fv, args):
            o = fv[3] or (args[0] if args else None)
            return next((n for n, c in self.clients.items() if c == o), None)

        def rev(t):
            return next((k for k, o in self.revs.items() if o == t), None)

        def remote_call(what, answer=lambda n, args: NONE):
            def g(I, fv, args, kw, st, node, fr):
                n = client(fv, args)
                st = st.copy()
                k = next((rev(a) for a in [*args, *dict(kw).values()] if rev(a) is not None), None)
                k = k if k is None or isinstance(k, str) else k[1]
                now = [value(st.heap.get((self.revs[k], a), NONE), st) for a in ("tags", "orig_tags")] if k else []
                st.mon = st.mon + ((what, n, k, *now),)
                e = self.answers.get((what, n, k)) or self.answers.get((what, n))
                if e:
                    err = ("exc", ERR[e][0], True)
                    st.heap[(err, "status")] = C(ERR[e][1]) if ERR[e][1] else NONE
                    I.throw(err, st)
                    return []
                v = answer(n, args)
                return [(v, st)]
            return g

        def conf(I, fv, args, kw, st, node, fr):
            ns = [a[2] for a in [*args, *dict(kw).values()] if is_str(a) and a[2] in self.clients]
            return [(self.clients[ns[0]], st)] if ns else None

        def write(I, fv, args, kw, st, node, fr):
            o = fv[3] or args[0]
            k = rev(o)
            st = st.copy()
            now = [value(st.heap.get((o, a), NONE), st) for a in ("tags", "orig_tags")]
            st.mon = st.mon + (("write", k[0] if isinstance(k, tuple) else OWN,
                                k[1] if isinstance(k, tuple) else k, *now),)
            return [(NONE, st)]

        def remove(I, fv, args, kw, st, node, fr):
            o, st = fv[3] or args[0], st.copy()
            rest = [a for a in args if a != o]
            force = dict(kw).get("force", rest[0] if rest else FALSE)
            k = rev(o)
            st.mon = st.mon + (("remove" if force == TRUE else "soft", k[0] if isinstance(k, tuple) else OWN,
                                k[1] if isinstance(k, tuple) else k),)
            if force == TRUE:
                st.heap[(hist, "#c")] = tuple(i for i in st.heap[(hist, "#c")] if i != ("v", o))
                for a in ("#c", "#k"):
                    st.heap[(ids, a)] = tuple(i for i in st.heap[(ids, a)] if C(k if not isinstance(k, tuple) else k[1])
                                              not in i)
            return [(NONE, st)]

        def to_dict(I, fv, args, kw, st, node, fr):
            o = fv[3] or args[0]
            fields = [value(st.heap.get((o, a), NONE), st) for a in ("uuid", "server", "tags", "orig_tags", "timestamp")]
            fields.append(show(st.heap.get((o, "trust"), NONE)))
            return None if None in fields else [(C(repr([sorted(map(repr, x[1])) if isinstance(x, tuple) and isinstance(
                x[1], frozenset) else x for x in fields])), st)]
        none = lambda I, fv, args, kw, st, node, fr: [(NONE, st)]
        put("Client.put_tags", remote_call("put"))
        put("Client.run_purge", remote_call("purge"))
        put("Client.touch_backup", remote_call("touch"))
        put("Client.get_revs", remote_call("get", lambda n, args: self.lists[n] if n in self.lists else None))
        put("Client.from_conf", conf)
        put("Client.close", none)
        put("Revision.write_info", write)
        put("Revision.remove", remove)
        put("Revision.to_dict", to_dict)
        put("Repository.connect", none)
        put("Repository.scan", none)

    def make(self, r, n, key=None):
        h = self.h
        trust = ("enum", "backy.revision.Trust", r.trust.upper())
        self.revs[key or r.uuid] = h.of(
            "backy.revision.Revision", uuid=C(r.uuid), server=C(r.server), tags=h.seq("set", [C(t) for t in sorted(r.tags)]),
            orig_tags=h.seq("set", [C(t) for t in sorted(r.orig)]), trust=trust, repository=self.repo,
            log=("sym", "log", None), timestamp=C(NOW - 1000 + n),
            stats=h.dict({"duration": C(10)} if r.clean else {}))
        self.spec[key or r.uuid] = r

    def run(self, func, case):
        """(trace, counted errors, state), None: undecided"""
        ctx = self.ctx
        f = ctx.p.try_method("Job", func)
        if f is None:
            return None
        try:
            _, out, exc = ctx.run(f, self.m, st=self.h.state(self.m), self_val=self.job, subst=self.sub, lookup=False,
                                  scan=False, max_steps=60000)
        except Budget:
            ctx.saw("undecided", f"{case}: too many paths")
            return None
        ends = [(st.mon, value(v, st), st) for v, st in out]
        if not ends and exc and all(e[2] for e, _ in exc):
            return exc[0][1].mon, ("raises", exc[0][0][1]), exc[0][1]
        if len({e[:2] for e in ends}) != 1 or exc or self.m.vague or any(x is None for t in ends[0][0] for x in t[3:]) \
                or any(t[0] in ("write", "remove", "put") and t[2] is None or t[1] is None for t in ends[0][0]):
            ctx.saw("undecided", f"{case}: {len(ends)} ways, {[e for e, _ in exc][:2]}")
            return None
        ctx.saw("decided", case)
        return ends[0]


def names(v):
    return {x[1] for x in v[1]} if v and v[0] == "s" else None


def push(ctx):
    hist = [Rev("own", "", "manual:a"), Rev("own2", "", "daily"), Rev("b", "p1", "x y", "x"), Rev("c", "p1", "", "x"),
            Rev("d", "p1", "x"), Rev("e", "p2", "x", "x y"), Rev("f", "p3", ""), Rev("g", "dead", "y", "x"),
            Rev("h", "p1", "z", "x y", "verified"), Rev("i", "p2", "", "daily weekly"), Rev("j", "p2", "q", "", "distrusted")]
    p1, p2 = {"b", "c", "h"}, {"e", "i", "j"}
    plans = [{}] + [{("put", s, u): e} for s, u in (("p1", "b"), ("p1", "c"), ("p2", "i"), ("p2", "e"))
                    for e in ("refused", "gone", "away", "late", "odd", "broken")]
    plans += [{("put", "p1"): "away"}, {("put", "p1"): "unavailable", ("put", "p2", "e"): "refused"},
              {("purge", "p1"): "away"}, {("purge", "p2"): "gone"}, {("purge", "p1"): "late"}, {("purge", "p2"): "odd"}]
    order = [hist, hist[::-1], hist[2:4], [hist[3]], hist[:2], [hist[5]], hist[5:8]]
    for revs, plan in [(o, {}) for o in order] + [(o, pl) for o in order[:2] for pl in plans[1:]]:
        w = World(ctx, revs, {"p1": [], "p2": [], "p3": []}, plan)
        case = "push of " + " ".join(r.uuid for r in revs) + ", ".join(
            ["", *(" ".join(str(x) for x in k) + f": {v}" for k, v in plan.items())])
        r = w.run("push_metadata", case)
        if r is None:
            continue
        trace, errors, st = r
        msg = judge_push(revs, plan, trace, errors)
        if msg:
            ctx.finding("C20.exchange", "Job.push_metadata", f"{case}: {msg}", "")
            return


def judge_push(revs, plan, trace, errors):
    if errors[0] == "raises":
        return f"it raises {errors[1]}"
    pending = [r for r in revs if r.server and r.server != "dead" and r.tags != r.orig]
    fails = lambda *k: plan.get(k) or plan.get(k[:2])
    bad = 0
    for t in trace:
        if t[0] == "put" and not any(r.uuid == t[2] for r in pending):
            return f"{t[2]} is sent to {t[1]}"
        if t[0] in ("write", "remove", "soft") and not any(r.uuid == t[2] for r in pending):
            return f"{t[0]} of {t[2]}"
    for r in pending:
        puts = [i for i, t in enumerate(trace) if t[0] == "put" and t[2] == r.uuid]
        if not puts:
            return f"the tags of {r.uuid} are not sent"
        if any(trace[i][1] != r.server for i in puts):
            return f"the tags of {r.uuid} are sent to {trace[puts[0]][1]} instead of {r.server}"
        i = puts[0]
        if names(trace[i][3]) != r.tags or names(trace[i][4]) != r.orig:
            return f"{r.uuid}: {sorted(names(trace[i][4]))} -> {sorted(names(trace[i][3]))} is sent"
        done = [t for t in trace[i:] if t[0] in ("write", "remove", "soft") and t[2] == r.uuid]
        early = [t for t in trace[:i] if t[0] in ("write", "remove", "soft") and t[2] == r.uuid]
        if early:
            return f"{early[0][0]} of {r.uuid} before the server accepted"
        if fails("put", r.server, r.uuid):
            bad += 1
            if done:
                return f"{done[0][0]} of {r.uuid} although the server did not accept"
            continue
        if r.tags:
            if [t[0] for t in done] != ["write"] * max(len(done), 1):
                return f"{r.uuid} is not written" if not done else f"{done[0][0]} of {r.uuid}"
            if names(done[-1][3]) != r.tags or names(done[-1][4]) != r.tags:
                return f"{r.uuid} is written with tags {sorted(names(done[-1][3]))}, known " \
                       f"{sorted(names(done[-1][4]))}"
        elif [t[0] for t in done if t[0] != "write"] != ["remove"]:
            return f"{r.uuid} is not removed"
    for s in {r.server for r in pending}:
        gone = any(t[0] == "remove" and t[1:3] == ("", r.uuid) for t in trace for r in pending if r.server == s)
        asked = any(t[0] == "purge" and t[1] == s for t in trace)
        if gone != asked:
            return f"{s} is {'not ' * gone}asked to purge"
        bad += bool(asked and fails("purge", s))
    if errors[0] != "c" or bool(errors[1]) != bool(bad):
        return f"{errors[1]} errors are counted" if errors[0] == "c" else None
    return None


def pull(ctx):
    base = [Rev("own", "", "manual:a"), Rev("b", "p1", "x"), Rev("c", "p1", "x y"), Rev("d", "p1", "z"),
            Rev("e", "p2", "x"), Rev("f", "p2", "y"), Rev("g", "dead", "x"), Rev("own2", "", "daily"),
            Rev("k", "dead", "")]
    got = {"p1": [Rev("b", "p1", "x"), Rev("c", "p1", "x"), Rev("n", "p1", "x")],
           "p2": [Rev("e", "p2", "x", trust="verified"), Rev("f", "p2", "y"), Rev("own", "p2", "evil"),
                  Rev("b", "p2", "evil")],
           "p3": [Rev("own2", "p3", "x"), Rev("m", "p3", "")]}
    empty = {"p1": [], "p2": [Rev("f", "p2", "y"), Rev("e", "p2", "x")], "p3": []}
    plans = [{}] + [{("get", s): e} for s in ("p1", "p2") for e in ("gone", "forbidden", "broken", "away", "late", "odd",
                                                                  "unavailable")]
    plans += [{("touch", "p1"): e} for e in ("gone", "forbidden", "broken", "away", "late")]
    cases = [(base, got, pl) for pl in plans] + [(base, empty, {}), (base[:1], got, {}), (base[::-1], got, {}),
                                                 (base[1:4], empty, {}), ([], got, {}), (base, empty, {("get", "p2"): "gone"})]
    for revs, remote, plan in cases:
        w = World(ctx, revs, remote, plan)
        case = f"pull of {' '.join(u.uuid + '@' + n for n, us in remote.items() for u in us)} to " \
               f"{' '.join(r.uuid for r in revs)}" + ", ".join(
            ["", *(" ".join(k) + f": {v}" for k, v in plan.items())])
        r = w.run("pull_metadata", case)
        if r is None:
            continue
        trace, errors, st = r
        msg = judge_pull(revs, remote, plan, trace, errors)
        if msg:
            ctx.finding("C20.exchange", "Job.pull_metadata", f"{case}: {msg}", "")
            return


def judge_pull(revs, remote, plan, trace, errors):
    if errors[0] == "raises":
        return f"it raises {errors[1]}"
    bad, clash = 0, []
    dead = {r.uuid for r in revs if r.server and r.server not in remote}
    removed, written = set(dead), {}
    for s, rs in remote.items():
        here = {r.uuid: r for r in revs if r.server == s}
        other = {r.uuid for r in revs if r.server != s and r.uuid not in dead}
        e = plan.get(("touch", s)) or plan.get(("get", s))
        if not any(t[0] == "touch" and t[1] == s for t in trace):
            return f"{s} is not told that the backup is in use"
        if e in ("gone", "forbidden"):
            rs = []
        elif e:
            bad += 1
            continue
        removed |= set(here) - {r.uuid for r in rs}
        for r in rs:
            if r.uuid in other:
                clash.append((s, r.uuid))
            elif r.uuid not in here or here[r.uuid].key() != r.key():
                written[s, r.uuid] = r
    did = {t[2] for t in trace if t[0] == "remove"}
    if did - removed:
        return f"{sorted(did - removed)[0]} is removed"
    if removed - did:
        return f"{sorted(removed - did)[0]} is not removed"
    did = {(t[1], t[2]): t for t in trace if t[0] == "write"}
    for s, u in did:
        if (s, u) not in written and u not in removed and any(r.uuid == u and r.server != s for r in revs):
            return f"{u} of {s or 'this server'} is written"
    for k, r in written.items():
        if k not in did:
            return f"{k[1]} of {k[0]} is not written"
        if names(did[k][3]) != r.tags or names(did[k][4]) != r.tags:
            return f"{k[1]} is written with tags {did[k][3]}"
    bad += any(u not in removed for s, u in clash)
    if errors[0] == "c" and bool(errors[1]) != bool(bad) and not clash:
        return f"{errors[1]} errors are counted"
    return None


def exchange(ctx):
    ctx.rule("C20.exchange", "small histories and peers, with every kind of failure (constant propagation)")
    push(ctx)
    pull(ctx)
