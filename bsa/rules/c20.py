"""Exchange of revision metadata with peers: push, pull and the server side."""
import ast
import itertools

from .c31 import Heap, run
from .exchange import exchange
from .util import *

def short(n):
    return n.rsplit(".", 1)[-1]


def attr_of(t, name):
    return t[0] == "attr" and t[2] == name


def is_tags(t):
    return attr_of(t, "tags") or t[0] == "loop" and isinstance(t[2], tuple) and t[2][-1] == "tags"


def reach(t, st):
    """Subterms of t, looking into the containers made on the way."""
    todo, seen = [t], set()
    while todo:
        for s in subterms(todo.pop()):
            if s in seen:
                continue
            seen.add(s)
            yield s
            if s[0] == "obj":
                for i in st.heap.get((s, "#c"), ()):
                    todo += [x for x in i[1:] if isinstance(x, tuple)]


def cmp_sides(a):
    """('==', x, y) terms, whatever the order"""
    return (a[2], a[3]) if a[0] == "cmp" else (None, None)


def handles_all(names):
    return {"Exception"} & names or {"BaseException"} & names or (
        "ClientError" in names and names & {"TimeoutError", "OSError"})


class Push(Monitor):
    """state: (status of the revision in hand, its facts, removed any, purged,
    failed, exceptions looked for since the failure, in loop)"""
    branches = True
    loops = True
    keep_ints = (True, False)
    loop_soft = 12

    def __init__(self, ctx, entry, revs):
        self.ctx, self.entry, self.revs = ctx, entry, revs
        self.caught = {"put": set()}

    def init(self):
        return ("", None, False, False, False, False)

    def report(self, rule, msg, loc, st):
        self.ctx.finding(rule, self.entry, msg, loc, st.path())

    def mine(self, t):
        return t[0] == "elem" and root_of(t[1])[0] == self.revs

    def on_throw(self, exc, st, I):
        e = I.last_event
        if e is not None and e.kind in ("call", "await") and any(
                x in show(e.args[0]) if e.kind == "await" else e.name.endswith(x)
                for x in ("Client.put_tags", "Client.run_purge")):
            s, tags, removed, purged, failed, inl = st.mon
            put = "put_tags" in (e.name + show(e.args[0]))
            st.mon = ("refused" if put else s, tags, removed, purged, "put" if put else "purge",
                      inl)
        elif e is not None and e.name.endswith("Revision.remove"):
            s, tags, removed, purged, failed, inl = st.mon
            st.mon = (s, tags, False, purged, failed, inl)

    def event(self, ev, st, I):
        s, tags, removed, purged, failed, inl = st.mon
        n = ev.name
        if ev.kind == "iter" and self.mine(ev.args[1]):
            s, tags, inl = "", None, True
        elif ev.kind == "iterend" and self.mine(ev.args[1]):
            if s in ("ok", "known"):
                self.report("C20.push-record", "tags accepted by the server are not recorded as "
                            "known by it" if s == "ok" else "the tags known by the server are "
                            "not written to disk", ev.loc(), st)
            s, tags, inl = "", None, False
        elif ev.kind == "loopend" and n == "break" and failed and root_of(ev.args[0])[0] == self.revs:
            self.report("C20.push-others", "a failure for one revision ends the push of the others",
                        ev.loc(), st)
        elif ev.kind == "handler":
            if failed:
                self.caught.setdefault(failed, set()).add(short(n))
        elif ev.kind == "fact":
            a, v = ev.args
            if attr_of(a, "tags") and self.mine(a[1]):
                tags = cval(v)
            elif a[0] == "app" and a[1] == "len" and attr_of(a[2][0], "tags"):
                tags = cval(v)
            elif a[0] == "cmp" and any(attr_of(x, "tags") and self.mine(x[1])
                                       for x in (a[2], a[3])):
                tags = None if tags is None else tags
                tags = "?" if tags is None else tags
            elif a[0] == "cmp" and any(x[0] == "app" and x[1] == "len" and x[2]
                                       and attr_of(x[2][0], "tags") for x in (a[2], a[3])):
                tags = "?"
        elif ev.kind == "call" and n.endswith("Client.put_tags"):
            self.ctx.saw("push sites", ev.loc())
            rev = next((a for a in ev.args[1:] if self.mine(a)), None)
            auto = dict(ev.kw or {}).get("autoremove", ev.args[2] if len(ev.args) > 2 else None)
            if auto is None:
                auto = self.default(I)
            if auto == FALSE and tags is not True:
                self.report("C20.push-autoremove", "a revision without tags is not removed "
                            "on the server", ev.loc(), st)
            if rev is not None:
                s = "ok"
        elif ev.kind == "setattr" and n == "orig_tags" and self.mine(ev.args[0]):
            self.changed("recorded as known by the server", s, ev, st)
            v = ev.args[1]
            if not any(attr_of(x, "tags") and x[1] == ev.args[0] for x in reach(v, st)):
                self.report("C20.push-record", f"{show(v)} is recorded as known by the server, "
                            "not the tags sent", ev.loc(), st)
            if s == "ok":
                s = "known"
        elif ev.kind == "call" and n.endswith("Revision.write_info") and self.mine(ev.args[0]):
            if s == "known":
                s = "done"
        elif ev.kind == "call" and n.endswith("Revision.remove"):
            if self.mine(ev.args[0]):
                self.changed("removed", s, ev, st)
                if tags is True or tags is None:
                    self.report("C20.push-remove", "a revision is removed although it may have "
                                "tags", ev.loc(), st)
                if s in ("ok", "known"):
                    s = "done"
            removed = True
        elif ev.kind == "call" and n.endswith("Client.run_purge"):
            purged = True
        st.mon = (s, tags, removed, purged, failed, inl)

    def changed(self, what, s, ev, st):
        self.ctx.saw("local changes", f"{what} at {ev.loc()}")
        if s in ("", "refused"):
            self.report("C20.push-accepted", f"the revision is {what} although the server did not "
                        "accept its tags" + (" (failure)" if s else " yet"), ev.loc(), st)

    def default(self, I):
        try:
            f = I.p.method("Client", "put_tags").node
        except Exception:
            return None
        a = f.args
        d = dict(zip([x.arg for x in a.args][::-1], a.defaults[::-1]))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v})
        v = d.get("autoremove")
        return C(v.value) if isinstance(v, ast.Constant) else None


def check_push(ctx):
    entry = "Job._push_metadata_single"
    f = ctx.p.try_method("Job", "_push_metadata_single")
    if f is None:
        return
    names = [a.arg for a in f.node.args.args]
    if len(names) < 3:
        return
    root = ("sym", "revs", "revs")
    m = Push(ctx, entry, root)
    kw = {names[2]: ("typed", root, ("list", ("cls", ctx.p.cls("Revision").qual)))}
    I, out, exc = ctx.run(f, m, args=kw, opaque={"Client.put_tags", "Revision.remove",
                                                 "Revision.write_info", "Client.run_purge"})
    for c in m.caught.values():
        if not handles_all(c):
            ctx.finding("C20.push-others", entry, "a failure of the peer (refused, unreachable or "
                        "no answer in time) ends the push to all; handled: "
                        + (", ".join(sorted(c)) or "nothing"), f"{f.qual}", ())
    for v, st in out:
        s, tags, removed, purged, failed, inl = st.mon
        if failed and inl:
            ctx.finding("C20.push-others", entry, "a failure for one revision ends the push of the "
                        "others", "", st.path())
        if failed and (is_c(v) and not cval(v) or v[0] == "loop"):
            ctx.finding("C20.push-errors", entry, "a failed push is not reported as an error", "",
                        st.path())
        if removed and not purged:
            ctx.finding("C20.push-purge", entry, "revisions were removed, but no purge is "
                        "requested from the server", "", st.path())


class Group(Monitor):
    """push_metadata: revisions go to the server they belong to."""
    branches = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.pending = False

    def event(self, ev, st, I):
        e = "Job.push_metadata"
        if ev.kind == "fact":
            a = ev.args[0]
            names = {s[2] for s in subterms(a) if s[0] == "attr"}
            if {"orig_tags", "tags"} <= names:
                self.pending = True
        elif ev.kind == "mutate" and len(ev.args) == 2 and ev.name in ("append", "add", "insert"):
            t, r = ev.args
            if t[0] == "idx" and r[0] == "elem" and is_history(root_of(r[1])[0]) and t[2] != r:
                self.ctx.saw("grouping", ev.loc())
                if not any(attr_of(x, "server") and x[1] == r for x in subterms(t[2])):
                    self.ctx.finding("C20.push-server", e, f"the revisions are grouped by "
                                     f"{show(t[2])}, not by the server they belong to", ev.loc(),
                                     st.path())
                self.member(ev, st, r)
        elif ev.kind == "call" and ev.name.endswith("._push_metadata_single"):
            self.ctx.saw("pushes", ev.loc())
            apis = [a for a in ev.args[1:2]]
            if len(ev.args) > 2 and ev.args[2][0] == "idx":
                k = ev.args[2][2]
                api = ev.args[1]
                conf = st.heap.get((api, "server_name"))
                if conf is not None and conf != k and conf[0] in ("elem", "loop"):
                    self.ctx.finding("C20.push-server", e, f"the revisions of {show(k)} are sent "
                                     f"to {show(conf)}", ev.loc(), st.path())

    def member(self, ev, st, r):
        f = [(a, v) for a, v in st.facts.items() if mentions(a, r) and
             {"orig_tags", "tags"} <= {s[2] for s in subterms(a) if s[0] == "attr"}]
        if not f:
            self.ctx.finding("C20.push-pending", "Job.push_metadata", "revisions without changed "
                             "tags are pushed too", ev.loc(), st.path())
        elif all(a[0] == "cmp" and a[1] == "==" and v for a, v in f):
            self.ctx.finding("C20.push-pending", "Job.push_metadata", "revisions are pushed whose "
                             "tags did not change", ev.loc(), st.path())


class Pull(Monitor):
    """_pull_metadata_single; state: (list fetched, failed, known status, evidence)"""
    branches = True
    loops = True

    def __init__(self, ctx, entry, api):
        self.ctx, self.entry, self.api = ctx, entry, api
        self.caught = set()

    def init(self):
        return (False, False, False, (), False)

    def report(self, rule, msg, loc, st):
        self.ctx.finding(rule, self.entry, msg, loc, st.path())

    def remote(self, t):
        return any(s[0] == "app" and s[1].endswith("Client.get_revs") for s in subterms(t))

    def own_server(self, a):
        """a compares a server with that of the api"""
        x, y = cmp_sides(a)
        if x is None:
            return False
        return any(attr_of(p, "server") and any(
            s[0] == "attr" and s[2] == "server_name" for s in subterms(q))
            for p, q in ((x, y), (y, x)))

    def on_throw(self, exc, st, I):
        e = I.last_event
        f, bad, known, ev, unk = st.mon
        if e is not None and e.kind in ("call", "await"):
            t = e.name + "".join(show(a) for a in e.args[:1])
            if "Client.get_revs" in t or "Client.touch_backup" in t:
                st.mon = (False, True, False, ev, unk)
            elif "find_by_uuid" in t:
                st.mon = (f, bad, known, ev, True)

    def event(self, ev, st, I):
        got, bad, known, facts, unk = st.mon
        n = ev.name
        if ev.kind == "handler":
            if bad:
                self.caught.add(short(n))
        elif ev.kind == "call" and n.endswith("Client.get_revs"):
            got, bad = True, False
            self.ctx.saw("fetches", ev.loc())
        elif ev.kind == "iter":
            facts, unk = (), False
        elif ev.kind == "fact":
            a, v = ev.args[0], cval(ev.args[1])
            if any(s[0] == "attr" and s[2] == "status" for s in subterms(a)):
                known = self.gone(a, v, st) or known
            elif a[0] in ("cmp", "not"):
                facts = facts + ((a, v),) if (a, v) not in facts else facts
                facts = facts[-6:]
        elif ev.kind == "call" and n.endswith("Revision.remove"):
            self.remove(ev, st)
        elif ev.kind == "call" and n.endswith("Revision.write_info"):
            self.write(ev, st)
        st.mon = (got, bad, known, facts, unk)

    def gone(self, a, v, st):
        """the peer said that it has no such backup: 404/403"""
        if a[0] != "cmp":
            return False
        if a[1] == "in":
            its = st.heap.get((a[3], "#c")) if a[3][0] == "obj" else None
            vals = [i[1] for i in its if i[0] == "v"] if its is not None else \
                list(a[3][1]) if a[3][0] == "tuple" else [a[3]]
            return v and self.ok(vals)
        return v and a[1] == "==" and self.ok([x for x in a[2:4] if not attr_of(x, "status")])

    @staticmethod
    def ok(vals):
        for x in vals:
            t = show(x)
            if not (x in (C(404), C(403)) or "NotFound" in t or "Forbidden" in t
                    or "NOT_FOUND" in t or "FORBIDDEN" in t or is_c(x) and isinstance(x[2], tuple)
                    and set(x[2]) <= {403, 404}):
                return False
        return True

    def evidence(self, t, facts, st):
        """(server evidence, polarity) found in the term or the facts about it"""
        res = []
        for s in list(reach(t, st)):
            if s[0] == "comp":
                r, conds, _ = root_of(s)
                for a, v in conds.items():
                    if self.own_server(a):
                        res.append(v if a[1] == "==" else not v)
            if s[0] == "app" and s[1].endswith("find_revisions") and any(
                    x[0] == "attr" and x[2] == "server_name" for x in subterms(s)):
                res.append(True)
        for a, v in facts + tuple(st.facts.items()):
            if self.own_server(a):
                x = next(p for p in cmp_sides(a) if attr_of(p, "server"))
                if mentions(t, x[1]) or mentions(x, t):
                    res.append(v if a[1] == "==" else not v)
        return res

    def remove(self, ev, st):
        got, bad, known, facts, unk = st.mon
        r = ev.args[0]
        self.ctx.saw("removals", ev.loc())
        if bad and not known:
            self.report("C20.pull-unknown", "revisions are removed although the list of the "
                        "peer's revisions could not be fetched", ev.loc(), st)
        e = self.evidence(r, facts, st)
        if True not in e:
            self.report("C20.pull-foreign", "a revision is removed that does not belong to the "
                        f"peer: {show(r)}"[:300], ev.loc(), st)
        if got and not bad and not any(self.remote(x) for x in reach(r, st)) and not any(
                self.remote(x) for a, v in facts + tuple(st.facts.items()) for x in reach(a, st)
                if x[0] == "app"):
            self.report("C20.pull-known", "a revision is removed without comparing with the "
                        "peer's list", ev.loc(), st)

    def write(self, ev, st):
        got, bad, known, facts, unk = st.mon
        r = ev.args[0]
        if not self.remote(r):
            return
        self.ctx.saw("imports", ev.loc())
        ok = unk
        for a, v in facts:
            if a[0] != "cmp" or not mentions(a, r):
                continue
            if a[1] == "in":
                rt, conds, _ = root_of(a[3])
                pol = [w if c[1] == "==" else not w for c, w in conds.items() if self.own_server(c)]
                if not pol:
                    ok = ok or not v
                elif False in pol:
                    ok = ok or not v
                else:
                    ok = ok or v
                if not conds and not is_history(rt):
                    ok = True
            elif self.own_server(a):
                ok = ok or (v if a[1] == "==" else not v)
        if not ok:
            self.report("C20.pull-replace", "a revision of the peer is stored without making sure "
                        "that it does not replace a revision of this server or of another peer",
                        ev.loc(), st)


class Origin(Monitor):
    """Client.get_revs: revisions are marked as the peer's, with no pending changes"""
    loops = True
    branches = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.nodes = {}

    def init(self):
        return (False, False)

    def event(self, ev, st, I):
        srv, tags = st.mon
        if ev.kind == "iter":
            st.mon = (False, False)
        elif ev.kind == "iterend":
            self.nodes.setdefault(id(ev.node), []).append((srv, tags, ev.loc(), st.path()))
        elif ev.kind == "setattr" and ev.name == "server":
            st.mon = (any(s[0] == "attr" and s[2] == "server_name" for s in subterms(ev.args[1])),
                      tags)
        elif ev.kind == "setattr" and ev.name in ("orig_tags", "tags"):
            r = ev.args[0]
            a, b = (ev.args[1] if ev.name == x else st.heap.get((r, x)) for x in ("orig_tags", "tags"))
            a = ("attr", r, "orig_tags") if a is None else a
            b = ("attr", r, "tags") if b is None else b
            same = a == b or any(s == b for s in subterms(a)) or any(
                attr_of(s, "tags") and s[1] == r for s in subterms(a))
            same = same or (st.heap.get((a, "#c")) is not None
                            and st.heap.get((a, "#c")) == st.heap.get((b, "#c")))
            st.mon = (srv, same)


def check_origin(ctx):
    f = ctx.p.try_method("Client", "get_revs")
    if f is None:
        return
    m = Origin(ctx)
    ctx.run(f, m)
    for i, what, msg in ((0, "server", "as revisions of the peer"),
                         (1, "orig_tags", "with the peer's tags as the known ones")):
        l = [x for x in m.nodes.values() if any(y[i] for y in x)]
        if not l:
            ctx.finding("C20.pull-origin", "Client.get_revs",
                        f"the revisions fetched are not marked {msg}", f.qual, ())
        for x in l:
            for y in x:
                ctx.saw("origin", y[2])
                if not y[i]:
                    ctx.finding("C20.pull-origin", "Client.get_revs", "some of the revisions "
                                f"fetched are not marked {msg}", y[2], y[3])


class Dead(Monitor):
    """pull_metadata: revisions of peers that are not configured any more"""
    branches = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.removed = False

    def event(self, ev, st, I):
        if ev.kind != "call" or not ev.name.endswith("Revision.remove"):
            return
        r = ev.args[0]
        self.removed = True
        self.ctx.saw("dead peers", ev.loc())
        root, conds, _ = root_of(r[1]) if r[0] == "elem" else (r, {}, None)
        f = [(a, v) for a, v in list(st.facts.items()) + list(conds.items())
             if any(attr_of(s, "server") for s in subterms(a))]
        foreign = any(v and attr_of(a, "server") or a[0] == "cmp" and a[1] == "==" and not v
                      and C("") in a[2:4] or a[0] == "cmp" and a[1] == "!=" and v and C("") in a[2:4]
                      for a, v in f)
        for s in subterms(r):
            if s[0] == "app" and s[1].endswith("find_revisions") and any(
                    x == C("remote") for x in s[2]):
                foreign = True
        gone = any(a[0] == "cmp" and a[1] == "in" and not v and any(
            s[0] == "attr" and s[2] == "peers" for s in subterms(a[3])) for a, v in f)
        if not foreign:
            self.ctx.finding("C20.pull-foreign", "Job.pull_metadata", "revisions are removed that "
                             "may be this server's own", ev.loc(), st.path())
        if not gone:
            self.ctx.finding("C20.dead-peer", "Job.pull_metadata", "revisions are removed that "
                             "belong to a configured peer", ev.loc(), st.path())


class Expect(Monitor):
    """Repository.tags: compare-and-set; state: (changed any, mismatch, compared)"""
    branches = True
    loops = True

    def __init__(self, ctx):
        self.ctx = ctx

    def init(self):
        return (False, False, False, None)

    def event(self, ev, st, I):
        changed, miss, compared, given = st.mon
        e = "Repository.tags"
        if ev.kind == "fact":
            a, v = ev.args[0], cval(ev.args[1])
            exp = any(s[0] == "sym" and s[1] == "expect" for s in subterms(a))
            if exp and any(is_tags(s) for s in reach(a, st)):
                compared = True
                self.ctx.saw("expectations", ev.loc())
                if a[0] == "cmp":
                    miss = miss or (a[1] == "==" and not v or a[1] == "!=" and v)
                elif a[0] == "app" and a[1] == "all":
                    miss = miss or not v
                elif not self.matching(a):
                    miss = miss or v
                if changed:
                    self.ctx.finding("C20.tags-atomic", e, "a revision is changed before the "
                                     "expected tags of all revisions were compared", ev.loc(),
                                     st.path())
            elif a[0] == "cmp" and a[1] in ("==", "is") and NONE in a[2:4] and exp:
                given = not v
        elif ev.kind == "iterend" and not isinstance(ev.node, (ast.For, ast.AsyncFor)):
            miss = False        # what was found is in the list made
        elif ev.kind == "setattr" and ev.name == "tags" or ev.kind == "call" and (
                ev.name.endswith("Revision.remove") or ev.name.endswith("Revision.write_info")) \
                or ev.kind == "mutate" and ev.args and attr_of(ev.args[0], "tags"):
            changed = True
            self.ctx.saw("changes", ev.loc())
            if miss:
                self.ctx.finding("C20.tags-expect", e, "a revision is changed although the "
                                 "expected tags do not match", ev.loc(), st.path())
        st.mon = (changed, miss, compared, given)

    @staticmethod
    def matching(a):
        for s in subterms(a):
            if s[0] == "comp":
                return any(c[0] == "cmp" and (c[1] == "==") == bool(w)
                           for alt in s[2] for c, w in dict(alt[0]).items()
                           if any(is_tags(x) for x in subterms(c)))
        return False


def check_tags(ctx):
    f = ctx.p.method("Repository", "tags")
    m = Expect(ctx)
    I, out, exc = ctx.run(f, m, opaque={"Revision.remove", "Revision.write_info"})
    if not ctx.sites.get("expectations"):
        ctx.finding("C20.tags-expect", "Repository.tags", "the expected tags are never compared "
                    "with those of the revisions", f.qual, ())
    for v, st in out:
        if st.mon[1] and not (is_c(v) and not cval(v)):
            ctx.finding("C20.tags-expect", "Repository.tags", f"a mismatch of the expected tags is "
                        f"reported as {show(v)}", "", st.path())


class Server(Monitor):
    """put_tags / run_purge handlers; state: result of tags() known to be"""
    branches = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.called = False

    def init(self):
        return None

    def on_throw(self, exc, st, I):
        n = short(exc[1])
        if st.mon is False and (n in ("HTTPNoContent", "HTTPOk", "HTTPAccepted", "HTTPCreated")):
            self.ctx.finding("C20.server-conflict", self.entry, "tags that were not set because of "
                             f"a conflict are answered with {n}", "", st.path())
        if st.mon is True and n == "HTTPPreconditionFailed":
            self.ctx.finding("C20.server-conflict", self.entry, "tags that were set are answered "
                             "with HTTPPreconditionFailed", "", st.path())

    def event(self, ev, st, I):
        if ev.kind == "fact" and any(s[0] == "app" and s[1].endswith("Repository.tags")
                                     for s in subterms(ev.args[0])):
            st.mon = cval(ev.args[1])
        if ev.kind == "call" and (ev.name.endswith("Repository.tags")
                                  or ev.name.endswith("Repository.set_purge_pending")):
            self.called = True
            self.ctx.saw("server actions", ev.loc())
            for s in subterms(ev.args[0]):
                if s[0] == "attr" and s[2] == "jobs":
                    self.ctx.finding("C20.server-active", self.entry, "peers can change a backup "
                                     "this server has a job for", ev.loc(), st.path())
            if ev.name.endswith("Repository.tags"):
                self.args(ev, st, I)

    def args(self, ev, st, I):
        names = [a.arg for a in I.p.method("Repository", "tags").node.args.args]
        d = dict(zip(names, ev.args))
        d.update(dict(ev.kw or {}))
        def keys(t):
            c = st.heap.get((t, "#c"))
            ts = [t] + ([i[1] for i in c if len(i) > 1] if c else [])
            return {s[2] for x in ts for s in subterms(x) if is_str(s)} & {"old_tags", "new_tags"}
        for a, k in (("tags", "new_tags"), ("expect", "old_tags")):
            v = d.get(a)
            if v is None or v == NONE:
                self.ctx.finding("C20.server-expect", self.entry, f"tags are set without the "
                                 f"{a} of the request", ev.loc(), st.path())
            elif keys(v) and k not in keys(v):
                self.ctx.finding("C20.server-expect", self.entry, f"{a} is the {keys(v).pop()} of "
                                 "the request", ev.loc(), st.path())


class Asked(Monitor):
    """_pull_metadata_single: what is asked for"""

    def __init__(self, ctx):
        self.ctx = ctx

    def event(self, ev, st, I):
        if ev.kind != "call" or short(ev.name) != "get" or not any(
                s[0] == "str" and any(is_str(x) and x[2].endswith("/revs") for x in s[1])
                for a in ev.args[1:] for s in subterms(a)):
            return
        self.ctx.saw("revisions fetched", ev.loc())
        params = dict(ev.kw or {}).get("params")
        if params is None:
            return
        d = {cval(k): v for k, v in st.heap.get((params, "#k"), ()) if is_str(k)}
        v = d.get("only_clean")
        while v is not None and v[0] == "app" and len(v[2]) == 1 and short(v[1]) in ("int", "str", "bool"):
            v = v[2][0]
        if v is not None and is_c(v) and cval(v) in (False, 0, "0", "", None, "False"):
            self.ctx.finding("C20.pull-clean", "Job._pull_metadata_single", "incomplete revisions of peers "
                             "are fetched too", ev.loc(), st.path())


def check_served(ctx):
    """BackyAPI.get_revs on an abstract history"""
    from .c31 import Heap, sched
    f = ctx.p.try_method("BackyAPI", "get_revs")
    if f is None:
        return
    e = "BackyAPI.get_revs"
    h, objs = Heap(), {}
    for clean in (True, False):
        for server in ("", "peer"):
            objs[h.of("backy.revision.Revision", timestamp=C(len(objs)), uuid=C(f"u{len(objs)}"), server=C(server),
                      stats=h.dict({"duration": C(3)} if clean else {}))] = (clean, server)
    repo = h.of("backy.repository.Repository", history=h.seq("list", list(objs)), schedule=sched(h, {})[0])
    got = []

    def json(I, fv, args, kw, st, node, fr):
        got.append((args[0], st))
        return [(("sym", "answer", None), st)]

    def here(I, fv, args, kw, st, node, fr):
        return [(repo, st)]

    def scan(I, fv, args, kw, st, node, fr):
        return [(NONE, st)]
    for asked in ("1", "0"):
        request = h.of("Request", query=h.dict({"only_clean": C(asked)}), headers=h.dict({}))
        served(ctx, e, f, h, request, asked, objs, got, {
            "backy.daemon.api.to_json": json, "backy.daemon.api.BackyAPI.get_backup": here,
            "backy.repository.Repository.scan": scan})


def served(ctx, e, f, h, request, asked, objs, got, subst):
    from ..interp import Budget
    from .c31 import Times
    m = Times()
    del got[:]
    try:
        ctx.run(f, m, st=h.state(m), lookup=False, scan=False, max_steps=20000,
                args={f.params()[1]: request}, subst=subst)
    except Budget:
        return
    for t, st in got:
        while t[0] == "conv" and t[1] in ("list", "tuple", "iter"):
            t = t[2]
        its = st.heap.get((t, "#c")) if t[0] == "obj" else None
        if its is None or not all(i[0] == "v" and i[1] in objs for i in its):
            ctx.saw("undecided", f"{e}: {show(t)[:100]}")
            continue
        revs = [objs[i[1]] for i in its]
        ctx.saw("revisions served", f"{e}: only_clean {asked}: {len(revs)}")
        if any(server for _, server in revs):
            ctx.finding("C20.server-revs", e, "peers are sent revisions of other servers as this server's", "",
                        st.path())
        if (True, "") not in revs:
            ctx.finding("C20.server-revs", e, "peers are not sent the complete revisions of this server", "",
                        st.path())
        if asked == "1" and any(not clean for clean, _ in revs):
            ctx.finding("C20.server-revs", e, "peers are sent incomplete revisions although they asked for "
                        "complete ones", "", st.path())


def check_pending(ctx):
    """Which revisions have changes that were not pushed yet."""
    ctx.rule("C20.pending", "a revision of another server whose tags differ from the known ones, added or "
             "removed, is pending (partial evaluation)")
    f = ctx.p.try_method("Revision", "pending_changes")
    if f is None:
        return
    for srv, tags, orig in itertools.product(("", "b"), ("", "a", "b", "ab"), ("", "a", "b", "ab")):
        h = Heap()
        r = h.of("backy.revision.Revision", server=C(srv), tags=h.seq("set", [C(x) for x in tags]),
                 orig_tags=h.seq("set", [C(x) for x in orig]), uuid=C("u"))
        case = f"{'remote' if srv else 'local'}, tags {tags or '-'}, known {orig or '-'}"
        v = run(ctx, f, case, h, self_val=r)
        if v is None:
            continue
        got, st = v
        got = bool(got[1])
        if got != bool(srv and set(tags) != set(orig)):
            ctx.finding("C20.push-pending", "Revision.pending_changes", f"{case}: " + (
                "is pushed although nothing was changed here" if got else "the change is not pushed"),
                "", st.path())


def check(ctx):
    exchange(ctx)
    check_pending(ctx)
    ctx.rule("C20.pull-clean", "only complete revisions are fetched from peers")
    ctx.rule("C20.server-revs", "BackyAPI.get_revs answers with this server's own revisions, complete ones if asked "
             "to (partial evaluation on an abstract history)")
    ctx.rule("C20.push", "in Job._push_metadata_single every change of a revision (orig_tags, "
             "removal) is preceded by a put_tags call for it that did not raise; accepted tags are "
             "recorded and written; removal only without tags; every failure the client can raise "
             "is handled, counted and does not end the loop; a removal is followed by a purge "
             "request")
    ctx.rule("C20.push-server", "Job.push_metadata groups pending revisions by their server")
    ctx.rule("C20.pull", "in Job._pull_metadata_single a removal needs a condition that the "
             "revision's server is the peer and, unless the peer answered 403/404, its list; a "
             "stored revision needs a condition that no revision of another server has its uuid; "
             "Client.get_revs sets server and orig_tags of every revision")
    ctx.rule("C20.dead-peer", "Job.pull_metadata removes only revisions of servers that are not "
             "configured")
    ctx.rule("C20.tags", "Repository.tags compares the expected tags of all revisions before "
             "changing one, and reports a mismatch; the API handlers pass expectation and tags of "
             "the request, refuse backups with a job and report a mismatch")
    check_push(ctx)
    f = ctx.p.try_method("Job", "push_metadata")
    if f is not None:
        g = Group(ctx)
        ctx.run(f, g, opaque={"Job._push_metadata_single"})
        if not g.pending:
            ctx.finding("C20.push-pending", "Job.push_metadata", "revisions without changed tags "
                        "are pushed too", f.qual, ())
    f = ctx.p.try_method("Job", "_pull_metadata_single")
    if f is not None:
        m = Pull(ctx, "Job._pull_metadata_single", None)
        ctx.run(f, m, opaque={"Revision.remove", "Revision.write_info", "Client.get_revs",
                              "Client.touch_backup", "Repository.find_by_uuid", "Revision.to_dict"})
        if not handles_all(m.caught):
            ctx.finding("C20.pull-others", m.entry, "a failure of one peer ends the exchange with "
                        "all; handled: " + (", ".join(sorted(m.caught)) or "nothing"), f.qual, ())
    f = ctx.p.try_method("Job", "pull_metadata")
    if f is not None:
        d = Dead(ctx)
        ctx.run(f, d, opaque={"Job._pull_metadata_single", "Revision.remove",
                              "ClientManager.close"})
        if not d.removed:
            ctx.finding("C20.dead-peer", "Job.pull_metadata", "revisions of peers that are no "
                        "longer configured are never removed", f.qual, ())
        ctx.run(f, Asked(ctx), opaque={"Revision.remove", "Revision.write_info", "Client.touch_backup",
                                       "Repository.find_by_uuid", "Revision.to_dict", "Revision.from_dict"})
    check_served(ctx)
    check_origin(ctx)
    check_tags(ctx)
    for n in ("put_tags", "run_purge"):
        f = ctx.p.try_method("BackyAPI", n)
        if f is None:
            continue
        m = Server(ctx, f"BackyAPI.{n}")
        ctx.run(f, m, opaque={"Repository.tags", "Repository.set_purge_pending"})
        if not m.called:
            ctx.finding("C20.server-action", m.entry, "the request has no effect", f.qual, ())
    ctx.need("push sites")
    ctx.need("changes")
