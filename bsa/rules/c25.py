"""A reload makes the running daemon follow its configuration."""
import ast
import itertools

from ..interp import Budget
from .c31 import Heap, NOW, Times
from .reload import dead, sites, settings
from .util import *

FOR = (ast.For, ast.AsyncFor)
TABLE = {"worker_limit": ("global", "worker-limit"), "base_dir": ("global", "base-dir"),
         "backup_completed_callback": ("global", "backup-completed-callback"), "peers": ("peers",),
         "api_addrs": ("api", "addrs"), "api_port": ("api", "port"),
         "api_tokens": ("api", "tokens"), "schedules": ("schedules",)}


def is_attr(t, name):
    return t[0] == "attr" and t[2] == name


def has_attr(t, name):
    return any(is_attr(s, name) for s in subterms(t))


def config_part(t, part):
    """t was derived from config[part]"""
    return any(s[0] == "idx" and s[2] == C(part) or s[0] == "app" and s[1] == ".get"
               and len(s[2]) > 1 and s[2][1] == C(part) for s in subterms(t))


def given(t):
    """facts that hold for every element of a filtered container"""
    for s in subterms(t):
        if s[0] == "comp" and s[2]:
            return set.intersection(*[set(c) for c, _ in s[2]])
    return set()


def minus(t):
    """(left, right) of a set difference"""
    for s in subterms(t):
        if s[0] == "bin" and s[1] == "-":
            return s[2], s[3]
        if s[0] == "app" and s[1] == ".difference" and len(s[2]) > 1:
            return s[2][0], s[2][1]
    return None, None


class Reload(Monitor):
    """state: steps done"""

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return ()

    def on_throw(self, exc, st, I):
        e = I.last_event
        for n in ("_read_config", "_apply_config"):
            if e is not None and e.name.endswith("." + n):
                st.mon = tuple(x for x in st.mon if x != n) + ("failed",)

    def event(self, ev, st, I):
        n = ev.name
        if ev.kind == "call" and n.endswith("._read_config"):
            st.mon = st.mon + ("_read_config",)
        elif ev.kind == "call" and n.endswith("._apply_config"):
            self.ctx.saw("reload steps", ev.loc())
            if "_read_config" not in st.mon or "failed" in st.mon:
                self.ctx.finding("C25.order", self.entry, "the configuration is applied before it "
                                 "was read", ev.loc(), st.path())
            st.mon = st.mon + ("_apply_config",)
        elif ev.kind == "call" and n == ".set" and ev.args and is_attr(ev.args[0], "reload_api"):
            if "_read_config" not in st.mon:
                self.ctx.finding("C25.order", self.entry, "the API is told to reconfigure before "
                                 "the configuration was read", ev.loc(), st.path())
            st.mon = st.mon + ("set",)
        elif ev.kind == "call" and n.endswith(".terminate"):
            st.mon = st.mon + ("terminate",)


def check_reload(ctx):
    f = ctx.p.method("BackyDaemon", "reload")
    m = Reload(ctx, "BackyDaemon.reload")
    I, out, exc = ctx.run(f, m, opaque={"BackyDaemon._apply_config", "BackyDaemon._read_config",
                                        "BackyDaemon.terminate"})
    for v, st in out + exc:
        if "failed" in st.mon and "terminate" not in st.mon:
            ctx.finding("C25.failed", m.entry, "a reload that fails leaves the daemon running with whatever it got to",
                        f.qual, st.path())
            break
    for v, st in out:
        if "failed" in st.mon:
            continue
        for x, msg in (("_read_config", "the configuration is not read"),
                       ("_apply_config", "jobs are not reconfigured"),
                       ("set", "the API server is not told")):
            if x not in st.mon:
                ctx.finding("C25.steps", m.entry, f"reload() succeeds although {msg}", f.qual,
                            st.path())


class Signals(Monitor):
    """start(): what the handlers registered for the signals do"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.done = {}
        self.sig = None

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name == ".add_signal_handler" and self.sig is None:
            args = [a for a in ev.args[1:]]
            if len(args) < 2:
                return
            self.sig = show(args[0]).rsplit(".", 1)[-1]
            try:
                s = st.copy()
                self.done.setdefault(self.sig, set())
                I.call(args[1], list(args[2:]), {}, s, ev.node, ev.fr)
            except AssertionError:
                pass
            finally:
                self.sig = None
        elif self.sig is not None and ev.kind == "call":
            for n in ("reload", "terminate"):
                if ev.name.endswith("BackyDaemon." + n):
                    self.done[self.sig].add(n)


def check_signals(ctx):
    f = ctx.p.method("BackyDaemon", "start")
    m = Signals(ctx)
    ctx.run(f, m, opaque={"BackyDaemon._apply_config", "BackyDaemon._read_config",
                          "BackyDaemon.lock", "BackyDaemon.reload", "BackyDaemon.terminate"})
    for s, want in (("SIGHUP", "reload"), ("SIGTERM", "terminate"), ("SIGINT", "terminate")):
        ctx.saw("signals", s)
        got = m.done.get(s, set())
        if got != {want}:
            ctx.finding("C25.signal", "BackyDaemon.start", f"{s} leads to "
                        f"{' and '.join(sorted(got)) or 'nothing'}, not to {want}", f.qual, ())


class Apply(Monitor):
    """_apply_config.  state per iteration: (kind, differs?, known?, calls)"""
    branches = True
    loops = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.compared = False
        self.removed = []

    def init(self):
        return (None, None, None, (), None)

    def report(self, rule, msg, loc, st):
        self.ctx.finding(rule, self.entry, msg, loc, st.path())

    def event(self, ev, st, I):
        kind, differs, known, calls, gone = st.mon
        n = ev.name
        if ev.kind == "iter" and self.outermost(ev, I):
            t = ev.args[0]
            left, right = minus(t)
            rt = [t] if left is None else list(reach(left, st))
            jobs, conf = any(has_attr(x, "jobs") for x in rt), any(
                config_part(x, "jobs") for x in rt)
            kind = "jobs" if jobs else "config" if conf else None
            differs = known = gone = None
            calls = ()
            if kind == "jobs" and left is not None:
                gone = any(config_part(x, "jobs") for x in reach(right, st)) or None
            elif kind == "config" and left is not None and any(
                    has_attr(x, "jobs") for x in reach(right, st)):
                known = False
            for a, v in given(t):
                differs, known, gone = self.fact(a, v, differs, known, gone, kind)
        elif ev.kind == "iterend" and self.outermost(ev, I):
            if kind == "config":
                self.configured(ev, st)
            elif kind == "jobs":
                self.gone(ev, st)
            kind, calls = None, ()
        elif ev.kind == "fact":
            a, v = ev.args[0], cval(ev.args[1])
            differs, known, gone = self.fact(a, v, differs, known, gone, kind)
        elif ev.kind == "setitem" and is_attr(ev.args[0], "jobs"):
            calls = (calls + ("add",))[-6:]
        elif ev.kind == "delitem" and is_attr(ev.args[0], "jobs") or ev.kind == "mutate" \
                and n == "pop" and ev.args and is_attr(ev.args[0], "jobs"):
            calls = (calls + ("del",))[-6:]
            self.removed.append(ev.loc())
            if gone is not True:
                self.report("C25.removed", "a job is removed that may still be configured",
                            ev.loc(), st)
        elif ev.kind == "call" and n.startswith("repo:") and n.rsplit(".", 1)[-1] in (
                "stop", "start", "configure") and ".Job." in n:
            s = n.rsplit(".", 1)[-1]
            calls = (calls + (s,))[-6:]
            self.ctx.saw("job changes", f"{s} at {ev.loc()}")
            if s == "configure" and len(ev.args) > 1 and kind == "config":
                c = ev.args[1]
                if not config_part(c, "jobs") or any(self.last(x) for x in subterms(c)):
                    self.report("C25.changed", f"a job is configured with {show(c)}", ev.loc(), st)
        st.mon = (kind, differs, known, calls, gone)

    def fact(self, a, v, differs, known, gone, kind):
        if a[0] == "cmp" and any(self.last(s) for s in subterms(a)) or (
                a[0] == "cmp" and a[1] == "==" and NONE in a[2:4] and kind == "config"):
            self.compared = True
            d = not v if a[1] in ("==", "is") else v
            differs = d
        elif a[0] == "cmp" and a[1] == "in":
            if is_attr(a[3], "jobs") or has_attr(a[3], "jobs") and not config_part(a[3], "jobs"):
                known = v
            elif config_part(a[3], "jobs"):
                gone = not v
        return differs, known, gone

    def outermost(self, ev, I):
        return isinstance(ev.node, FOR)

    @staticmethod
    def last(t):
        return is_attr(t, "last_config")

    def configured(self, ev, st):
        kind, differs, known, calls, gone = st.mon
        jc = [c for c in calls if c in ("stop", "configure", "start")]
        self.ctx.saw("iterations", f"config: known {known} differs {differs}: " + " ".join(calls))
        if differs is False:
            if jc:
                self.report("C25.unchanged", "a job whose configuration did not change is "
                            f"disturbed ({', '.join(jc)})", ev.loc(), st)
            return
        if differs is None and not jc:
            return
        if "configure" not in jc or "start" not in jc:
            self.report("C25.changed", "a new or changed job is not configured and started "
                        f"({', '.join(jc) or 'nothing'})", ev.loc(), st)
            return
        if jc.index("start") < jc.index("configure"):
            self.report("C25.changed", "a job is started before it is configured", ev.loc(), st)
        if known is not False:
            if "stop" not in jc:
                self.report("C25.changed", "a changed job is started again without stopping it",
                            ev.loc(), st)
            elif jc.index("stop") > min(jc.index("start"), jc.index("configure")):
                self.report("C25.changed", "a changed job is stopped after it was configured or "
                            "started", ev.loc(), st)
        if differs is None and known is not False and not self.compared:
            self.report("C25.unchanged", "every reload restarts all jobs", ev.loc(), st)

    def gone(self, ev, st):
        kind, differs, known, calls, gone = st.mon
        self.ctx.saw("iterations", f"jobs: gone {gone}: " + " ".join(calls))
        if gone is True and "del" in calls and "stop" not in calls:
            self.report("C25.removed", "a removed job is not stopped", ev.loc(), st)
        if gone is True and "stop" in calls and "del" not in calls:
            self.report("C25.removed", "a removed job is still known", ev.loc(), st)
        if gone is False and ("stop" in calls or "del" in calls):
            self.report("C25.removed", "a job that is still configured is stopped", ev.loc(), st)


def check_apply(ctx):
    f = ctx.p.method("BackyDaemon", "_apply_config")
    m = Apply(ctx, "BackyDaemon._apply_config")
    ctx.run(f, m, opaque={"Job.stop", "Job.start", "Job.configure", "Job.__init__",
                          "Repository.__init__"})
    if not any(x.startswith("config:") and "add" in x for x in ctx.sites.get("iterations", ())):
        ctx.finding("C25.changed", m.entry, "new jobs are not added", f.qual, ())
    if not m.compared:
        ctx.finding("C25.unchanged", m.entry, "the configuration of a job is not compared with the "
                    "one it runs with", f.qual, ())
    if not m.removed and not any(ast_sets(g, "jobs") for g in (f,)):
        ctx.finding("C25.removed", m.entry, "jobs that are not configured any more stay active",
                    f.qual, ())
    # what a job remembers
    g = ctx.p.method("Job", "configure")
    col = Last()
    I, out, exc = ctx.run(g, col, args={g.node.args.args[1].arg: ("sym", "config", None)},
                          opaque={"Repository.__init__", "Repository.connect", "CmdLineSource.store"})
    for v, st in out:
        if st.mon is not True:
            ctx.finding("C25.unchanged", "Job.configure", "the configuration of a job is not "
                        "remembered as the one it runs with", g.qual, st.path())
    for x, st in exc:
        if st.mon is True:
            ctx.finding("C25.changed", "Job.configure", "a configuration is remembered as the one "
                        "in use although it could not be applied", g.qual, st.path())


def ast_sets(f, attr):
    return any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store)
               for n in ast.walk(f.node))


class Last(Monitor):
    def init(self):
        return False

    def event(self, ev, st, I):
        if ev.kind == "setattr" and ev.name == "last_config":
            st.mon = mentions(ev.args[1], ("sym", "config", None)) or ev.args[1][0] == "obj"


class Read(Monitor):
    """_read_config: attributes set, schedules configured"""
    branches = True
    loops = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.values = {}
        self.configured = 0

    def init(self):
        return (frozenset(), None, 0)

    def event(self, ev, st, I):
        done, known, conf = st.mon
        if ev.kind == "setattr" and ev.name in TABLE and ev.args[0][0] == "sym":
            done = done | {ev.name}
            self.values.setdefault(ev.name, []).append((ev.args[1], ev.loc(), st))
        elif ev.kind == "mutate" and ev.args and ev.args[0][0] == "attr" and ev.args[0][2] in TABLE:
            done = done | {ev.args[0][2]}
        elif ev.kind == "iter" and isinstance(ev.node, FOR) \
                and config_part(ev.args[0], "schedules") \
                and not self.inner(ev.args[0]):
            known, conf = None, 0
        elif ev.kind == "iterend" and isinstance(ev.node, FOR) \
                and config_part(ev.args[0], "schedules") and not self.inner(ev.args[0]):
            self.ctx.saw("schedules", f"known {known}: configured {conf}")
            if not conf:
                self.ctx.finding("C25.schedules", self.entry, "the configuration of a "
                                 + ("known " if known else "new " if known is False else "")
                                 + "schedule is not taken over", ev.loc(), st.path())
        elif ev.kind == "fact":
            a, v = ev.args[0], cval(ev.args[1])
            if a[0] == "cmp" and a[1] == "in" and has_attr(a[3], "schedules"):
                known = v
            elif a[0] == "cmp" and a[1] in ("is", "==") and NONE in a[2:4] and any(
                    s[0] == "app" and s[1] == ".get" and is_attr(s[2][0], "schedules")
                    for s in subterms(a)):
                known = not v
            elif a[0] == "app" and a[1] == ".get" and is_attr(a[2][0], "schedules"):
                known = v
        elif ev.kind == "call" and ev.name == ".configure":
            conf = 1
            self.configured += 1
        elif ev.kind == "enter" and ev.name.endswith("Schedule.configure"):
            conf = 1
            self.configured += 1
            r = ev.args[0]
            if r[0] == "obj" and known is not False:
                self.ctx.finding("C25.schedules", self.entry, "a known schedule is replaced by a "
                                 "new object: jobs that did not change keep the old one", ev.loc(),
                                 st.path())
        st.mon = (done, known, conf)

    @staticmethod
    def inner(t):
        return any(s[0] == "app" and s[1] == "copy.deepcopy" for s in subterms(t))


def sources(t, st, seen=None):
    """constants used as keys for t, looking into containers"""
    seen = set() if seen is None else seen
    out = set()
    for s in subterms(t):
        if is_str(s):
            out.add(s[2])
        if s[0] == "obj" and s not in seen:
            seen.add(s)
            for k in ("#c", "#k"):
                for i in st.heap.get((s, k), ()):
                    for x in i:
                        if isinstance(x, tuple):
                            out |= sources(x, st, seen)
    return out


def check_read(ctx):
    f = ctx.p.method("BackyDaemon", "_read_config")
    m = Read(ctx, "BackyDaemon._read_config")
    I, out, exc = ctx.run(f, m)
    for attr, keys in TABLE.items():
        ctx.saw("settings", attr)
        vals = m.values.get(attr, [])
        if not any(set(keys) <= sources(v, st) for v, _, st in vals):
            ctx.finding("C25.setting", f"{m.entry}:{attr}", f"{attr} is not set from "
                        f"{'.'.join(keys)} of the configuration", vals[0][1] if vals else f.qual, ())
            continue
        for v, loc, st in vals:
            if any(is_attr(s, attr) and s[1][0] in ("sym", "typed") for s in reach(v, st)) and \
                    attr != "schedules":
                ctx.finding("C25.setting", f"{m.entry}:{attr}", f"{attr} depends on its value "
                            "before the reload", loc, st.path())
                break
        for v, st in out:
            if attr not in st.mon[0]:
                ctx.finding("C25.setting", f"{m.entry}:{attr}", f"{attr} keeps its old value on a "
                            "path through a reload", f.qual, st.path())
    if not m.configured:
        ctx.finding("C25.schedules", m.entry, "schedules are not configured", f.qual, ())
    g = ctx.p.method("Schedule", "configure")
    s = Sched()
    I, out, exc = ctx.run(g, s, args={g.node.args.args[1].arg: ("sym", "config", None)})
    for v, st in out:
        if not st.mon:
            ctx.finding("C25.schedules", "Schedule.configure", "the new tags and intervals are not "
                        "taken over", g.qual, st.path())


class Sched(Monitor):
    def init(self):
        return False

    def event(self, ev, st, I):
        if ev.kind == "setattr" and ev.name == "schedule":
            st.mon = any(mentions(x, ("sym", "config", None)) for x in reach(ev.args[1], st))
        elif ev.kind in ("setitem", "mutate") and ev.args and is_attr(ev.args[0], "schedule"):
            st.mon = True


class Loop(Monitor):
    """api_server_loop; state: what happened since the last wait"""

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.waits = self.reconf = 0

    def init(self):
        return (("start",), False)

    def report(self, rule, msg, loc, st):
        self.ctx.finding(rule, self.entry, msg, loc, st.path())

    def event(self, ev, st, I):
        steps, waited = st.mon
        n = ev.name
        api = ev.args and is_attr(ev.args[0], "reload_api")
        if ev.kind in ("call", "mutate") and n in (".clear", "clear") and api:
            if "reconfigure" in steps:
                self.report("C25.api", "a reload that happens while the API is reconfigured is "
                            "lost (cleared afterwards)", ev.loc(), st)
            steps = steps + ("clear",)
        elif ev.kind == "call" and n.endswith("BackyAPI.reconfigure"):
            self.reconf += 1
            self.ctx.saw("reconfigurations", ev.loc())
            steps = steps + ("reconfigure",)
            for i, a in enumerate(("api_tokens", "api_addrs", "api_port")):
                v = ev.args[i + 1] if len(ev.args) > i + 1 else None
                if v is None:
                    v = dict(ev.kw or {}).get(("tokens", "addrs", "port")[i])
                if v is not None and not has_attr(v, a):
                    self.report("C25.api", f"the API is reconfigured with {show(v)} instead of "
                                f"the current {a}", ev.loc(), st)
        elif ev.kind == "call" and n == ".wait" and api:
            self.waits += 1
            if "reconfigure" not in steps:
                self.report("C25.api", "the API waits for a reload without having been "
                            "reconfigured after the last one", ev.loc(), st)
            elif waited and "clear" not in steps:
                self.report("C25.api", "the API does not wait for the next reload", ev.loc(), st)
            steps, waited = (), True
        st.mon = (tuple(dict.fromkeys(steps)), waited)


def check_loop(ctx):
    f = ctx.p.method("BackyDaemon", "api_server_loop")
    m = Loop(ctx, "BackyDaemon.api_server_loop")
    ctx.run(f, m, opaque={"BackyAPI.reconfigure", "BackyAPI.start", "BackyAPI.__init__"})
    if not m.reconf or not m.waits:
        ctx.finding("C25.api", m.entry, "the API server is never reconfigured" if not m.reconf
                    else "the API server does not wait for reloads", f.qual, ())


class Sites(Monitor):
    """BackyAPI.reconfigure; state per iteration: (kind, known?, calls)"""
    branches = True
    loops = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.seen = set()

    def init(self):
        return (None, None, (), None)

    def report(self, rule, msg, loc, st):
        self.ctx.finding(rule, self.entry, msg, loc, st.path())

    def event(self, ev, st, I):
        kind, known, calls, wanted = st.mon
        n = ev.name
        if ev.kind == "iter" and isinstance(ev.node, FOR):
            t = ev.args[0]
            old = has_attr(t, "sites")
            kind = "old" if old else "new"
            known, calls, wanted = None, (), None
            left, right = minus(t)
            if left is not None:
                kind = "old" if any(has_attr(x, "sites") for x in reach(left, st)) else "new"
                known, wanted = (None, False) if kind == "old" else (False, None)
            for a, v in given(t):
                known, wanted = self.fact(a, v, known, wanted)
        elif ev.kind == "iterend" and isinstance(ev.node, FOR):
            self.end(ev, st)
            kind, calls = None, ()
        elif ev.kind == "fact":
            a, v = ev.args[0], cval(ev.args[1])
            known, wanted = self.fact(a, v, known, wanted)
        elif ev.kind == "call" and n in (".start", ".stop"):
            calls = calls + (n[1:],)
        elif ev.kind == "setitem" and is_attr(ev.args[0], "sites"):
            calls = calls + ("add",)
        elif ev.kind == "delitem" and is_attr(ev.args[0], "sites") or ev.kind == "mutate" and \
                n == "pop" and is_attr(ev.args[0], "sites"):
            calls = calls + ("del",)
        self.seen |= set(calls)
        st.mon = (kind, known, calls, wanted)

    @staticmethod
    def fact(a, v, known, wanted):
        if a[0] == "cmp" and a[1] == "in":
            if has_attr(a[3], "sites"):
                known = v
            else:
                wanted = v
        return known, wanted

    def end(self, ev, st):
        kind, known, calls, wanted = st.mon
        self.ctx.saw("sites", f"{kind}: known {known} wanted {wanted}: {' '.join(calls)}")
        if kind == "new":
            if known is False and not ("start" in calls and "add" in calls):
                self.report("C25.sites", "a new address is not served", ev.loc(), st)
            if known is True and calls:
                self.report("C25.sites", "an address that is served already is started again",
                            ev.loc(), st)
            if known is None and "start" in calls:
                self.report("C25.sites", "addresses are started without checking whether they are "
                            "served already", ev.loc(), st)
        elif kind == "old":
            if wanted is True and calls:
                self.report("C25.sites", "an address that is still configured is stopped",
                            ev.loc(), st)
            if wanted is False and ("stop" in calls) != ("del" in calls):
                self.report("C25.sites", "an address that is no longer configured is "
                            + ("forgotten without being stopped" if "del" in calls else
                               "stopped but still known"), ev.loc(), st)
            if wanted is None and "stop" in calls:
                self.report("C25.sites", "addresses are stopped that may be configured", ev.loc(), st)


def check_sites(ctx):
    f = ctx.p.method("BackyAPI", "reconfigure")
    m = Sites(ctx, "BackyAPI.reconfigure")
    names = [a.arg for a in f.node.args.args]
    I, out, exc = ctx.run(f, m)
    for v, st in out:
        t = [x for k, x in st.heap.items() if k[1] == "tokens" and k[0][0] in ("sym", "typed")]
        if not any(s[0] == "sym" and s[1] == "tokens" for x in t for s in subterms(x)):
            ctx.finding("C25.tokens", m.entry, "the new access tokens are not taken over", f.qual,
                        st.path())
    for what, msg in (("start", "new addresses are never served"),
                      ("stop", "addresses no longer configured are never stopped")):
        if what not in m.seen:
            ctx.finding("C25.sites", m.entry, msg, f.qual, ())


def check(ctx):
    ctx.rule("C25.applied", "whatever jobs are running and configured, each is handled as it has to be")
    applied(ctx)
    ctx.rule("C25.dead", "the backups without a job, for constant jobs and directories")
    dead(ctx, "C25.dead")
    ctx.rule("C25.served", "the addresses served, for constant ones")
    sites(ctx, "C25.served")
    ctx.rule("C25.values", "the settings after reading constant configuration files, whatever they were before")
    settings(ctx, "C25.values")
    ctx.rule("C25.failed", "on every path of reload() on which reading or applying the configuration fails, "
             "terminate() is called")
    ctx.rule("C25.steps", "reload() reads, then applies the configuration and then notifies the API "
             "server on every path that returns; SIGHUP leads to reload(), SIGINT and SIGTERM to "
             "terminate()")
    ctx.rule("C25.changed", "_apply_config: per configured job: unchanged -> untouched; changed -> "
             "stop, configure with the new configuration, start; new -> added, configured, started; "
             "jobs not configured (and only those) are stopped and removed; configure() remembers "
             "what it applied")
    ctx.rule("C25.setting", "_read_config sets every setting from its key on every path; known "
             "schedules are reconfigured in place")
    ctx.rule("C25.api", "api_server_loop never clears the notification between reconfiguration and "
             "waiting; reconfigure() takes over the tokens, starts new, keeps known and stops "
             "removed addresses")
    check_reload(ctx)
    check_signals(ctx)
    check_apply(ctx)
    check_read(ctx)
    check_loop(ctx)
    check_sites(ctx)
    ctx.need("iterations")
    ctx.need("reload steps")


class Jobs(Times):
    """state: (what was done to which job, ...)"""
    ext = dict(Times.ext)
    ext.update({"os.scandir": lambda I, A, kw, st: ("tuple", ()), "os.listdir": lambda I, A, kw, st: ("tuple", ())})

    def init(self):
        return ()


def applied(ctx):
    """_apply_config on every combination of running and configured jobs"""
    f = ctx.p.try_method("BackyDaemon", "_apply_config")
    e = "BackyDaemon._apply_config"
    names = ("a", "b", "c")
    for old, new in itertools.product(itertools.product((None, "1"), repeat=3),
                                      itertools.product((None, "1", "2"), repeat=3)):
        h = Heap()
        m = Jobs()
        jobs = {n: h.of("backy.daemon.scheduler.Job", name=C(n), last_config=C("config " + o), status=C(""),
                           next_time=NONE if n == "a" else C(NOW), next_tags=NONE)
                for n, o in zip(names, old) if o}
        conf = {n: C("config " + o) for n, o in zip(names, new) if o}
        d = h.of("backy.daemon.BackyDaemon", jobs=h.dict(jobs), config=h.dict({"jobs": h.dict(conf)}),
                 dead_repositories=h.dict({}), backup_semaphores=h.dict({}), base_dir=C("/base"),
                 worker_limit=C(3))

        def act(what):
            def g(I, fv, args, kw, st, node, fr):
                st = st.copy()
                if what == "new":
                    a = [*args[2:], *[kw[k] for k in ("name",) if k in kw]]
                    st.heap[args[0], "name"] = a[0] if a else NONE
                    st.heap[args[0], "last_config"] = NONE
                n = st.heap.get((args[0], "name"))
                a = [*args[1:], *kw.values()]
                st.mon = st.mon + ((what, cval(n) if n else None, args[0],
                                    cval(a[0]) if what == "configure" and a and is_c(a[0]) else None),)
                return [(NONE, st)]
            return g
        sub = {ctx.p.method("Job", x).qual: act(y) for x, y in (
            ("__init__", "new"), ("stop", "stop"), ("start", "start"), ("configure", "configure"))
            if ctx.p.try_method("Job", x)}
        case = f"running {old}, configured {new}"
        try:
            I, out, exc = ctx.run(f, m, st=h.state(m), self_val=d, subst=sub, lookup=False, scan=False,
                                  max_steps=20000)
        except Budget:
            ctx.saw("undecided", f"{case}: too many paths")
            continue
        if not out and exc and all(x[0][0] == "exc" and x[0][2] for x in exc):
            ctx.finding("C25.applied", e, f"{case}: raises {exc[0][0][1]}", "", exc[0][1].path())
            return
        res = {}
        for v, st in out:
            j = st.heap.get((d, "jobs"))
            k = st.heap.get((j, "#k"))
            its = st.heap.get((j, "#c"))
            if k is None or its is None or not all(i[0] == "v" for i in its):
                res = None
                break
            res[tuple(sorted((cval(a), b) for a, b in k if any(i[1] == a for i in its))), st.mon] = st
        if not res:
            ctx.saw("undecided", f"{case}: {len(out)} paths")
            continue
        ctx.saw("decided", case)
        for (left, did), st in res.items():
            say = lambda msg: ctx.finding("C25.applied", e, f"{case}: {msg}", "", st.path())
            left = dict(left)
            if set(left) != set(conf):
                say(f"the jobs are then {sorted(left)}")
                return
            for n, o, w in zip(names, old, new):
                seq = [(x[0], x[3]) for x in did if x[1] == n]
                acts = [x for x, _ in seq]
                on = {x[2] for x in did if x[1] == n and x[0] != "new"}
                if o and w and left[n] != jobs[n]:
                    say(f"job {n} is replaced by a new object")
                elif o == w and acts:
                    say(f"job {n}, unchanged, is disturbed ({', '.join(acts)})")
                elif o and not w and (acts != ["stop"] or on != {jobs[n]}):
                    say(f"the removed job {n} is not just stopped ({', '.join(acts)})")
                elif w and o != w:
                    if ("configure", "config " + w) not in seq or "start" not in acts:
                        say(f"the {'changed' if o else 'new'} job {n} is not configured and started ({', '.join(acts)})")
                    elif o and acts[:1] != ["stop"]:
                        say(f"the changed job {n} is not stopped first ({', '.join(acts)})")
                    elif acts[-1] != "start" or acts.count("start") != 1 or acts.count("configure") != 1:
                        say(f"{'changed' if o else 'new'} job {n}: {', '.join(acts)}")
                    elif on != {left[n]}:
                        say(f"something else than the job {n} is configured")
