"""Only complete revisions count when coverage is judged."""
from .util import *

DUR = C("duration")


def dur_atom(a, v):
    """The fact says that a revision carries the mark of completion."""
    if a[0] == "cmp" and a[1] in ("in", "notin") and a[2] == DUR \
            and a[3][0] == "attr" and a[3][2] == "stats":
        return v == (a[1] == "in")
    if a[0] == "app" and a[1] == ".get" and len(a[2]) >= 2 and a[2][1] == DUR:
        return v
    if a[0] == "cmp" and a[1] in ("is", "==") and a[3] == NONE and a[2][0] == "app" \
            and a[2][1] == ".get" and len(a[2][2]) == 2 and a[2][2][1] == DUR:
        return not v
    return None


def server_fact(conds):
    return any(a[0] == "attr" and a[2] == "server" and not v
               or a[0] == "cmp" and a[1] == "==" and a[2][0] == "attr" and a[2][2] == "server"
               and a[3] == C("") and v for a, v in conds.items())


def source(t):
    """(root, conds) of the collection a revision term was taken from."""
    conds = {}
    while True:
        if t[0] in ("elem", "idx"):
            r, c, _ = root_of(t[1])
        elif t[0] == "app" and t[1] in ("max", "min", "next", "random.choice", ".pop") and t[2]:
            r, c, _ = root_of(t[2][0])
        else:
            return t, conds
        conds.update(c)
        if r[0] == "elem" or is_history(r) or r == t:
            return (r[1] if r[0] == "elem" else r), conds
        t = r


def joined(t):
    """The collections one was put together of (a + b, chain(a, b), [*a, *b])."""
    if t[0] == "bin" and t[1] in ("+", "|"):
        return [t[2], t[3]]
    if t[0] == "app" and t[1].startswith("itertools.chain") and t[2]:
        return list(t[2])
    return []


def complete(t, st):
    """True/False, or None: not a revision of the history."""
    root, conds = source(t)
    parts = joined(root)
    if parts and not any(dur_atom(a, v) for a, v in conds.items()):
        if any(dur_atom(a, v) and mentions(a, t) for a, v in st.facts.items()):
            return True
        known = [complete(("elem", x, 0), st) for x in parts]
        return None if all(x is None for x in known) else False not in known
    if not is_history(root):
        return None
    if any(dur_atom(a, v) for a, v in conds.items()):
        return True
    return any(dur_atom(a, v) and mentions(a, t) for a, v in st.facts.items())


def deep(v, st, seen=None):
    """The terms a value consists of, through the containers it refers to."""
    seen = set() if seen is None else seen
    for s in outer(v):
        yield s
        if s[0] == "obj" and s not in seen:
            seen.add(s)
            for k, x in st.heap.get((s, "#k"), ()):
                yield from deep(x, st, seen)
            for i in st.heap.get((s, "#c"), ()):
                if isinstance(i[1], tuple):
                    yield from deep(i[1], st, seen)


def counts(terms):
    for s in terms:
        if s[0] == "app" and s[1] == "len" and s[2]:
            r, c, _ = root_of(s[2][0])
            if is_history(r):
                yield s, c


class Mon(Monitor):
    def __init__(self, ctx, entry, reads):
        self.ctx, self.entry, self.reads = ctx, entry, reads
        self.branches = not reads

    def init(self):
        return None

    def event(self, ev, st, I):
        if ev.kind == "fact":
            a = ev.args[0]
            if a[0] == "cmp" and a[1] in ("<", ">", "<=", ">="):
                for s, c in counts(subterms(a)):
                    count(self.ctx, self.entry, s, c)
        if ev.kind == "read":
            c = complete(ev.args[0], st)
            if c is None:
                return
            self.ctx.saw("revision considered", f"{self.entry}: {ev.name} at {ev.where()}")
            if not c:
                self.ctx.finding("C08.complete", self.entry,
                                 f"the {ev.name} of a revision is used that may be incomplete: "
                                 "an interrupted backup counts as a backup", ev.loc(), st.path())


class Clean(Monitor):
    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    some = False

    def init(self):
        return None

    def event(self, ev, st, I):
        if ev.name.endswith(("Revision.remove", "fs.unlink")):
            self.some = True
        if ev.kind == "enter" and ev.name.endswith("Revision.remove"):
            r = ev.args[0]
            self.ctx.saw("clean-up", f"{self.entry}: {ev.where()}")
            root, conds = source(r)
            known = dict(conds)
            known.update({a: v for a, v in st.facts.items() if mentions(a, r)})
            if not any(dur_atom(a, v) is False for a, v in known.items()):
                self.ctx.finding("C08.clean", self.entry,
                                 "removes a revision not known to be incomplete",
                                 ev.loc(), st.path())
            if not server_fact(known):
                self.ctx.finding("C08.clean-remote", self.entry,
                                 "removes a revision that may belong to another server",
                                 ev.loc(), st.path())


def check(ctx):
    ctx.rule("C08.complete", "what is read from revisions to judge coverage (SLA, last backup per "
             "tag, status) comes from complete ones")
    ctx.rule("C08.count", "the number of revisions compared between servers counts complete local "
             "ones")
    ctx.rule("C08.clean", "the clean-up of a repository removes incomplete local revisions only")
    for entry in ("Repository.sla_overdue", "Repository.last_by_tag", "Repository.sla",
                  "Schedule.next", "BackyDaemon.status", "Command.check"):
        if ctx.p.try_method(*entry.split(".")) is None:
            continue
        m = Mon(ctx, entry, ("timestamp", "tags") if entry != "Command.check" else ("timestamp",))
        I, out, exc = ctx.run(entry, m)
        if entry == "BackyDaemon.status":
            for v, st in out:
                for s, c in counts(deep(v, st)):
                    count(ctx, entry, s, c)
    m = Mon(ctx, "Job._wait_for_leader", ())
    ctx.run(m.entry, m, opaque={"Client.fetch_status", "ClientManager.close"})
    m = Clean(ctx, "Repository._clean")
    ctx.run("Repository._clean", m, opaque={"Revision.write_info"})
    if not m.some:
        ctx.finding("C08.clean", m.entry, "incomplete revisions are not removed", "")
    ctx.need("revision considered", 2)
    ctx.need("revisions counted", 1)


def count(ctx, entry, s, conds):
    ctx.saw("revisions counted", f"{entry}: {show(s)}")
    miss = []
    if not any(dur_atom(a, v) for a, v in conds.items()):
        miss.append("incomplete")
    if not server_fact(conds):
        miss.append("remote")
    if miss:
        ctx.finding("C08.count", entry, f"{' and '.join(miss)} revisions are counted as backups "
                    f"of this server: {show(s)}")
