"""_apply_config and reconfigure on constant configurations: directories without a
job, worker slots, served addresses."""
from ..interp import Budget
from .c31 import Heap, Times, value
from .util import *


class World(Times):
    """state: what was done: (what, to which, ...)"""
    faults = False

    def __init__(self):
        self.ext = dict(Times.ext)

    def init(self):
        return ()


def note(m, what, name=lambda A, st: None, answer=NONE):
    def g(I, A, kw, st):
        st.mon = st.mon + ((what, name(A, st)),)
        return [(answer, st)]
    return g


def pairs(o, st):
    """{key: value term} of a dict whose content is known, else None"""
    if o is None or o[0] != "obj":
        return None
    k, its = st.heap.get((o, "#k")), st.heap.get((o, "#c"))
    if k is None or its is None or not all(i[0] == "v" for i in its):
        return None
    out = {}
    for a, b in k:
        if not any(i[1] == a for i in its):
            continue
        v = cval(a) if is_c(a) else tuple(x[2] if is_c(x) else None for x in a[1]) if a[0] == "tuple" else None
        if v is None or isinstance(v, tuple) and None in v:
            return None
        out[v] = b
    return out


def drive(ctx, m, f, h, self_val, case, **kw):
    """the one way it goes: (returned value or exception, state), None: undecided"""
    try:
        _, out, exc = ctx.run(f, m, st=h.state(m), self_val=self_val, lookup=False, scan=False, max_steps=30000, **kw)
    except Budget:
        ctx.saw("undecided", f"{case}: too many paths")
        return None
    exc = [x for x in exc if x[0][1] != "AssertionError"]
    ways = [(v, st) for v, st in out] + [(e, st) for e, st in exc if e[2]]
    seen = {(st.mon, frozenset((k, v) for k, v in st.heap.items() if k[0][0] == "obj" and isinstance(k[0][1], int)
                               and k[0][1] < 0), v if v[0] == "exc" else None) for v, st in ways}
    if len(seen) != 1 or m.vague:
        ctx.saw("undecided", f"{case}: {len(seen)} ways")
        return None
    ctx.saw("decided", case)
    return ways[0]


def daemon_of(h, **kw):
    d = dict(jobs=h.dict({}), config=h.dict({"jobs": h.dict({})}), dead_repositories=h.dict({}), worker_limit=C(3),
             backup_semaphores=h.dict({}), base_dir=C("/base"), log=("sym", "log", None), schedules=h.dict({}))
    d.update(kw)
    return h.of("backy.daemon.BackyDaemon", **d)


def stand_ins(ctx):
    none = lambda I, fv, args, kw, st, node, fr: [(NONE, st)]
    return {f.qual: none for x in ("__init__", "stop", "start", "configure") for f in [ctx.p.try_method("Job", x)] if f}


def slots(ctx, rule, key="C18.limit"):
    f = ctx.p.try_method("BackyDaemon", "_apply_config")
    if f is None:
        return
    for old, free, new in ((None, None, 3), (3, 3, 3), (3, 1, 3), (3, 0, 3), (3, 3, 5), (3, 1, 5), (5, 5, 3), (5, 3, 3),
                           (1, 0, 2), (2, 1, 1), (4, 0, 1), (1, 1, 1), (None, None, 1)):
        h, m = Heap(), World()
        sem = lambda: h.of("semaphore", _bound_value=C(old), _value=C(free), _initial=C(old))
        there = {k: sem() for k in ("slow", "fast")} if old else {}
        d = daemon_of(h, worker_limit=C(new), backup_semaphores=h.dict(there))

        def make(I, A, kw, st):
            a = [*A, *dict(kw or {}).values()]
            n = 1 + sum(x[0] == "slots" for x in st.mon)
            o = ("obj", ("slots", n), "semaphore")
            st.mon = st.mon + (("slots", n),)
            for at in ("_bound_value", "_value", "_initial"):
                st.heap[o, at] = a[0] if a else C(1)
            return [(o, st)]
        m.ext.update({"asyncio.BoundedSemaphore": make, "asyncio.Semaphore": make,
                      "asyncio.locks.BoundedSemaphore": make, "asyncio.locks.Semaphore": make,
                      "os.scandir": lambda I, A, kw, st: ("tuple", ()), "os.listdir": lambda I, A, kw, st: ("tuple", ()),
                      ("semaphore", "locked"): lambda I, A, kw, st: C(free == 0)})
        case = f"{f'{free} of {old} slots free' if old else 'no slots'}, worker-limit {new}"
        r = drive(ctx, m, f, h, d, case, subst=stand_ins(ctx))
        if r is None or r[0][0] == "exc":
            continue
        st = r[1]
        got = pairs(st.heap.get((d, "backup_semaphores")), st)
        if got is None or not set(got) >= {"slow", "fast"}:
            continue
        say = lambda msg: ctx.finding(rule, "BackyDaemon._apply_config", f"{case}: {msg}", f.loc)
        size = {k: cval(st.heap.get((o, "_bound_value"), NONE)) for k, o in got.items()}
        if got["slow"] == got["fast"]:
            say("slow and fast backups share their slots")
        elif old == new and any(got[k] != there[k] for k in there):
            say("the slots are replaced although the limit did not change")
        elif any(size[k] not in (new, None) for k in ("slow", "fast")):
            say(f"there are {size['slow']} slow and {size['fast']} fast slots")
        else:
            continue
        return


def dead(ctx, rule):
    """the backups without a job are those of the moment"""
    f = ctx.p.try_method("BackyDaemon", "_apply_config")
    init = ctx.p.try_method("Repository", "__init__")
    if f is None or init is None:
        return
    kinds = {"a": "dir", "b": "dir", "c": "dir", "d": "dir", "f": "file", "l": "link", "a.old": "dir"}
    for running, configured, before in (("", "a", ""), ("a", "a", "b"), ("a", "ab", "bcd"), ("ab", "a", "c"),
                                        ("abc", "", ""), ("", "", "xy"), ("b", "c", "ac"), ("a", "a", "axl")):
        h, m = Heap(), World()
        entries = [h.of("DirEntry", name=C(n), path=C("/base/" + n)) for n in kinds]
        kind = {o: k for o, k in zip(entries, kinds.values())}
        names = {n: o for n, o in zip(kinds, entries)}

        def is_dir(I, A, kw, st):
            follow = dict(kw or {}).get("follow_symlinks", TRUE)
            return C(kind[A[0]] == "dir" or kind[A[0]] == "link" and follow == TRUE)
        m.ext.update({"os.scandir": lambda I, A, kw, st: ("tuple", tuple(entries)),
                      ("DirEntry", "is_dir"): is_dir,
                      ("DirEntry", "is_symlink"): lambda I, A, kw, st: C(kind[A[0]] == "link"),
                      ("DirEntry", "is_file"): lambda I, A, kw, st: C(kind[A[0]] == "file")})
        jobs = {n: h.of("backy.daemon.scheduler.Job", name=C(n), last_config=C("config"), next_time=NONE, next_tags=NONE,
                        status=C(""), _task=NONE) for n in running}
        olds = {n: h.of("backy.repository.Repository", path=C("/base/" + n)) for n in before}
        d = daemon_of(h, jobs=h.dict(jobs), config=h.dict({"jobs": h.dict({n: C("config") for n in configured})}),
                      dead_repositories=h.dict(olds),
                      backup_semaphores=h.dict({k: h.of("semaphore", _bound_value=C(3), _value=C(1)) for k in ("slow", "fast")}))
        sub = stand_ins(ctx)
        sub[init.qual] = lambda I, fv, args, kw, st, node, fr: [(NONE, st)]
        case = f"jobs {running or '-'}, now {configured or '-'}, backups known without a job {before or '-'}"
        r = drive(ctx, m, f, h, d, case, subst=sub)
        if r is None or r[0][0] == "exc":
            continue
        st = r[1]
        got = pairs(st.heap.get((d, "dead_repositories")), st)
        if got is None:
            ctx.saw("undecided", f"{case}: {show(st.heap.get((d, 'dead_repositories'), NONE))[:80]}")
            continue
        want = {n for n, k in kinds.items() if k == "dir" and n not in configured}
        if set(got) != want:
            more, less = sorted(set(got) - want), sorted(want - set(got))
            ctx.finding(rule, "BackyDaemon._apply_config", f"{case}: " + (
                f"{more[0]} counts as a backup without a job" if more else f"{less[0]} is not known as a backup without "
                "a job"), f.loc)
            return


def sites(ctx, rule):
    f = ctx.p.try_method("BackyAPI", "reconfigure")
    if f is None or len(f.params()) < 4:
        return
    for old, addrs, port in ((), ("a", "b"), 1), ((("a", 1), ("b", 1)), ("a", "b"), 1), (
            (("a", 1), ("b", 1)), ("b", "c"), 1), ((("a", 1), ("b", 1)), ("a", "b"), 2), (
            (("a", 1),), ("", "b"), 1), ((("a", 1),), (), 1), ((("a", 1), ("b", 2)), ("a",), 0), (
            (("a", 1), ("b", 1), ("c", 1)), ("c",), 1), ((("a", 1), ("a", 2)), ("a",), 2):
        h, m = Heap(), World()
        there = {k: h.of("site", name=C(f"{k[0]}:{k[1]}"), key=C(f"{k[0]}:{k[1]}")) for k in old}
        ds = h.new("dict")
        key = lambda k: ("tuple", (C(k[0]), C(k[1])))
        h.h[ds, "#k"] = tuple((key(k), o) for k, o in there.items())
        h.h[ds, "#c"] = tuple(("v", key(k)) for k in there)
        api = h.of("backy.daemon.api.BackyAPI", sites=ds, runner=("sym", "runner", None), tokens=h.dict({"old": C("x")}),
                   log=("sym", "log", None))
        tokens = h.dict({"t": C("client")})

        def make(I, A, kw, st):
            kw = dict(kw or {})
            a = list(A[1:]) + [kw[k] for k in ("host", "port") if k in kw]
            if len(a) < 2 or not all(is_c(x) for x in a[:2]):
                return None
            o = ("obj", ("site", a[0][2], a[1][2], len(st.mon)), "site")
            n = C(f"{a[0][2]}:{a[1][2]}")
            st.heap[o, "name"] = st.heap[o, "key"] = n
            return [(o, st)]
        name = lambda A, st: cval(st.heap.get((A[0], "key"), NONE))
        m.ext.update({"aiohttp.web_runner.TCPSite": make, "aiohttp.web.TCPSite": make,
                      ("site", "start"): note(m, "start", name), ("site", "stop"): note(m, "stop", name)})
        case = f"serving {', '.join(f'{a}:{p}' for a, p in old) or '-'}, now {', '.join(map(repr, addrs)) or '-'} port {port}"
        ps = f.params()
        r = drive(ctx, m, f, h, api, case, args={ps[1]: tokens, ps[2]: h.seq("list", [C(a) for a in addrs]), ps[3]: C(port)})
        if r is None or r[0][0] == "exc":
            continue
        st = r[1]
        say = lambda msg: ctx.finding(rule, "BackyAPI.reconfigure", f"{case}: {msg}", f.loc)
        want = {(a, port) for a in addrs if a and port}
        text = lambda ks: {f"{a}:{p}" for a, p in ks}
        on = {n for w, n in st.mon if w == "start"}
        off = {n for w, n in st.mon if w == "stop"}
        got = pairs(st.heap.get((api, "sites")), st)
        if on != text(want - set(old)):
            say(f"{sorted(on ^ text(want - set(old)))[0]} is {'' if on - text(want - set(old)) else 'not '}served anew")
        elif off != text(set(old) - want):
            say(f"{sorted(off ^ text(set(old) - want))[0]} is {'' if off - text(set(old) - want) else 'not '}stopped")
        elif got is not None and set(got) != want:
            say(f"{sorted(text(got) ^ text(want))[0]} is {'' if set(got) - want else 'not '}remembered as served")
        elif pairs(st.heap.get((api, "tokens")), st) not in (None, {"t": C("client")}):
            say("the tokens are not exactly the new ones")
        else:
            continue
        return


def term(h, x):
    """a configuration as abstract value"""
    if isinstance(x, dict):
        o = h.new("dict")
        h.h[(o, "#k")] = tuple((C(k), term(h, v)) for k, v in x.items())
        h.h[(o, "#c")] = tuple(("v", C(k)) for k in x)
        return o
    return h.seq("list", [term(h, y) for y in x]) if isinstance(x, list) else C(x)


def plain(v):
    """the Python value of what value() gives"""
    if v[0] == "d":
        return {plain(k): plain(x) for k, x in v[1]}
    return [plain(x) for x in v[1]] if v[0] in "ts" else v[1]


SETTINGS = [
    {"global": {"base-dir": "/my/dir"}},
    {"global": {"base-dir": "/my/dir", "worker-limit": 4, "backup-completed-callback": "/cb x"},
     "api": {"addrs": "10.0.0.1, fe80::1", "port": 1234, "tokens": {"t1": "server1", "t2": "server2"},
             "cli-default": {"token": "cli"}},
     "peers": {"p1": {"url": "https://p1", "token": "x"}}},
    {"global": {"base-dir": "/b", "worker-limit": "7"},
     "api": {"addrs": "fd00::5,127.0.0.1", "port": "99", "cli-default": {"token": "cli", "url": "https://other:1"}}},
    {"global": {"base-dir": "/b"}, "api": {"addrs": "192.168.0.1", "cli-default": {"token": "a"}}, "peers": {}},
    {"global": {"base-dir": "/c"}, "api": {"tokens": {}, "port": 80}, "peers": {"q": {"url": "http://q", "token": "y"}}},
]


def wanted(conf):
    """(attribute, what it is called in the file, value) for a configuration file"""
    g, api = conf.get("global", {}), conf.get("api", {})
    cb = g.get("backup-completed-callback")
    addrs = [a.strip() for a in api.get("addrs", "::1, 127.0.0.1").split(",")]
    yield "worker_limit", "worker-limit", int(g.get("worker-limit", 1))
    yield "base_dir", "base-dir", g["base-dir"]
    yield "backup_completed_callback", "backup-completed-callback", cb
    yield "peers", "peers", conf.get("peers", {})
    yield "api_addrs", "addrs", sorted(addrs)
    yield "api_port", "port", int(api.get("port", 6023))
    yield "api_tokens", "tokens", api.get("tokens", {})
    cli = api.get("cli-default", {})
    yield "api_cli_default", "cli-default", cli if "url" in cli else {**cli, "url": {
        f"http://{'[%s]' % a if ':' in a else a}:{api.get('port', 6023)}" for a in addrs}}


def settings(ctx, rule):
    """what _read_config takes from constant configuration files"""
    f = ctx.p.try_method("BackyDaemon", "_read_config")
    if f is None:
        return
    for conf in SETTINGS:
        for old in (None, SETTINGS[1], SETTINGS[4]):
            h, m = Heap(), World()
            read = term(h, {**conf, "schedules": {}, "jobs": {}})
            attrs = {a: term(h, v) for a, _, v in wanted(old) if a != "api_cli_default"} if old else {}
            if old:
                attrs["api_cli_default"] = term(h, {"token": "before", "url": "http://before"})
            else:
                attrs["api_cli_default"] = h.dict({})
            d = daemon_of(h, config_file=("sym", "config_file", None), **attrs)
            m.ext.update({"yaml.safe_load": lambda I, A, kw, st: read, **dict.fromkeys(("fs.exists", "fs.isfile"), lambda I, A, kw, st: C(True))})
            case = f"configuration {conf}" + (f" after {old}" if old else "")
            r = drive(ctx, m, f, h, d, case)
            if r is None:
                continue
            if r[0][0] == "exc":
                ctx.finding(rule, "BackyDaemon._read_config", f"{case} is refused ({r[0][1]})", f.loc)
                return
            st = r[1]
            for a, key, want in wanted(conf):
                t = st.heap.get((d, a))
                if t is None:
                    continue
                while t[0] == "typed" or t[0] == "app" and t[1] == "pathlib.Path" and len(t[2]) == 1:
                    t = t[1] if t[0] == "typed" else t[2][0]
                v = value(t, st)
                if v is None:
                    ctx.saw("undecided", f"{a}: {case}"[:150])
                    continue
                got = plain(v)
                if a == "api_addrs" and isinstance(got, list):
                    got = sorted(got)
                if a == "api_cli_default" and isinstance(got, dict) and isinstance(want.get("url"), set):
                    want = {**want, "url": got.get("url") if got.get("url") in want["url"] else sorted(want["url"])}
                if got != want:
                    ctx.finding(rule, "BackyDaemon._read_config", f"{case}: {key} is {got!r}, not {want!r}", f.loc)
                    return
