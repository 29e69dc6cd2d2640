"""From a method of the client, through the route its request takes, to what the handler does on the server: all with
constants."""
from ..interp import Budget
from .. import models as M
from .c21 import VERBS, match, segments
from .c31 import Heap, Times, sched, value
from .reload import drive
from .util import *


class Peer(Times):
    """state: requests, or what the server did"""
    faults = False

    def __init__(self):
        self.ext = dict(Times.ext)

    def init(self):
        return ()


def text(v, st):
    """how a query parameter arrives"""
    return C(str(v[2])) if is_c(v) and isinstance(v[2], (str, int)) and not isinstance(v[2], bool) else None


def asked(ctx, name, args, case):
    """the requests of a client method: [(verb, url, {query}, {body: value term}, state)]"""
    f = ctx.p.try_method("Client", name)
    if f is None or len(f.params()) < 1 + len(args):
        return None
    h, m = Heap(), Peer()
    reqs = []

    def send(verb):
        def g(I, A, kw, st):
            kw, a = dict(kw or {}), list(A[1:])
            v = verb.upper()
            if verb == "request":
                x = a.pop(0) if a else kw.get("method", NONE)
                v = x[2].upper() if is_str(x) else None
            url = a[0] if a else kw.get("url", NONE)
            st.mon = st.mon + (len(reqs),)
            reqs.append((v, url, kw, st.copy()))
            return [(("obj", ("response", len(reqs)), "response"), st)]
        return g
    for v in VERBS:
        m.ext["session", v] = send(v)
    m.ext["response", "json"] = lambda I, A, kw, st: ("tuple", ())
    me = h.of("backy.daemon.api.Client", session=h.new("session"), server_name=C("peer"), log=("sym", "log", None))
    given = {p: mk(h) for p, mk in zip(f.params()[1:], args)}
    r = drive(ctx, m, f, h, me, f"Client.{name}: {case}", args=given)
    if r is None or r[0][0] == "exc":
        return None
    st = r[1]
    out = []
    for i in st.mon:
        v, url, kw, st = reqs[i]
        q, b = {}, {}
        for k, d in (("params", q), ("json", b)):
            t = kw.get(k, NONE)
            if t == NONE:
                continue
            if t[0] != "obj" or not all(is_str(a) for a, _ in st.heap.get((t, "#k"), ((NONE, 0),))):
                return None
            d.update((a[2], x) for a, x in st.heap[t, "#k"])
        q = {k: text(x, st) for k, x in q.items()}
        b = {k: value(x, st) for k, x in b.items()}
        if v is None or not is_str(url) or None in q.values() or None in b.values():
            return None
        if "?" in url[2]:
            for part in url[2].split("?", 1)[1].split("&"):
                k, _, x = part.partition("=")
                q[k] = C(x)
        out.append((v, url, q, b))
    return out


def term(v, h):
    """the term of what value() gave"""
    if v[0] == "c":
        return C(v[1])
    return h.seq("list", [term(x, h) for x in (sorted(v[1]) if v[0] == "s" else v[1])])


class Answer:
    def __init__(self, did, status, answer):
        self.did, self.status, self.answer = did, status, answer

    @property
    def ok(self):
        return self.status is None or self.status < 300


def serve(ctx, r, request, case, tags="True"):
    """what the server does about a request"""
    verb, url, query, body = request
    hits = []
    for v, path, fn, _ in r.routes:
        if is_str(path) and fn[0] == "func" and v == verb:
            ph = match(path[2], segments(url))
            if ph is not None:
                hits.append((fn, ph))
    if not hits:
        return None
    hits.sort(key=lambda x: len(x[1]))
    fn, ph = hits[0]
    f = ctx.p.funcs[fn[1]]
    h, m = Heap(), Peer()
    where = {k: C("".join(x)) for k, x in ph.items() if all(isinstance(y, str) for y in x)}
    data = h.dict({k: term(v, h) for k, v in body.items()})
    req = h.of("Request", query=h.dict(query), match_info=h.dict(where), headers=h.dict({}))
    m.ext["Request", "json"] = lambda I, A, kw, st: data
    repos, jobs = {}, {}
    for n in ("mine", "other"):
        repos[n] = h.of("backy.repository.Repository", name=C(n), _lock_fds=h.dict({}), path=C("/base/" + n))
        jobs[n] = h.of("backy.daemon.scheduler.Job", name=C(n), repository=repos[n],
                       run_immediately=h.of("asyncio.Event", job=C(n)))
    for n in ("dead", "gone"):
        repos[n] = h.of("backy.repository.Repository", name=C(n), _lock_fds=h.dict({}), path=C("/base/" + n))
    daemon = h.of("backy.daemon.BackyDaemon", jobs=h.dict(jobs), dead_repositories=h.dict(
        {n: repos[n] for n in ("gone", "dead")}), log=("sym", "log", None))
    api = h.of("backy.daemon.api.BackyAPI", daemon=daemon, log=("sym", "log", None))
    names = {o: n for n, o in repos.items()}

    def did(*what):
        def g(I, fv, args, kw, st, node, fr):
            fd = I.p.funcs[fv[1]]
            me, a = (fv[3], list(args)) if fv[3] is not None else (args[0], list(args[1:]))
            given = dict(zip(fd.params()[1:], a), **{k: v for k, v in dict(kw or {}).items() if k})
            st.mon = st.mon + ((*what, names.get(me, "?"), tuple(sorted(
                (k, repr(value(v, st))) for k, v in given.items()))),)
            if what[0] == "tags" and tags != "True":
                if tags == "False":
                    return [(FALSE, st)]
                I.throw(("exc", tags, True), st)
                return []
            return [(TRUE if what[0] == "tags" else ("sym", "answer of " + what[0], None), st)]
        return g
    sub = {}
    for cls, n, what in (("Repository", "tags", "tags"), ("Repository", "set_purge_pending", "purge"),
                         ("Repository", "touch", "touch"), ("Repository", "scan", "scan"),
                         ("Repository", "get_history", "history"), ("BackyDaemon", "reload", "reload"),
                         ("BackyDaemon", "status", "status")):
        fd = ctx.p.try_method(cls, n)
        if fd is not None:
            sub[fd.qual] = did(what)

    def started(I, A, kw, st):
        st.mon = st.mon + (("run", cval(st.heap.get((A[0], "job"), NONE)), ()),)
        return [(NONE, st)]
    m.ext["asyncio.Event", "set"] = started
    js = ctx.p.func("backy.daemon.api.to_json") if any(x.qual == "backy.daemon.api.to_json" for x in ctx.p.funcs) else None
    if js is not None:
        sub[js.qual] = lambda I, fv, args, kw, st, node, fr: [(("tuple", (C("json"), *args)), st)]
    ps = f.params()
    got = drive(ctx, m, f, h, api, case, args={ps[1] if ps[0] == "self" else ps[0]: req}, subst=sub)
    if got is None:
        return None
    v, st = got
    status = None
    if v[0] == "exc":
        status = M.HTTP_STATUS.get(v[1].rsplit(".", 1)[-1], 500)
    ans = None
    if v[0] == "tuple" and v[1][:1] == (C("json"),) and len(v[1]) == 2:
        ans = value(v[1][1], st)
    return Answer([x for x in st.mon if x[0] != "scan"], status, ans)


def roundtrip(ctx, r, rule):
    def repo(name):
        return lambda h: h.of("backy.repository.Repository", name=C(name), _lock_fds=h.dict({}))

    def rev(name, tags, orig):
        return lambda h: h.of("backy.revision.Revision", repository=repo(name)(h), uuid=C("uuid-1"),
                              tags=h.seq("set", [C(x) for x in tags]), orig_tags=h.seq("set", [C(x) for x in orig]))

    def const(x):
        return lambda h: C(x)

    def go(name, args, case, tags="True"):
        reqs = asked(ctx, name, args, case)
        if reqs is None or len(reqs) != 1:
            return None
        return serve(ctx, r, reqs[0], f"{name}: {case}: answer", tags)

    def say(name, case, msg):
        f = ctx.p.try_method("Client", name)
        ctx.finding(rule, f"Client.{name}", f"{case}: {msg}", f.loc)
        return True

    s = lambda xs: repr(("s", frozenset(("c", x) for x in xs)))
    for old, new, auto in (("a", "ab", False), ("ab", "a", True), ("a", "", True), ("", "b", False), ("ab", "cd", False),
                           ("a", "", False)):
        for name, tags in (("dead", "True"), ("dead", "False"), ("dead", "KeyError"), ("dead", "BlockingIOError"),
                           ("mine", "True"), ("nowhere", "True")):
            case = f"tags {old or '-'} -> {new or '-'}{', autoremove' if auto else ''} of {name}" + (
                f" ({tags})" if tags != "True" else "")
            a = go("put_tags", [rev(name, new, old), const(auto)], case, tags)
            if a is None:
                continue
            calls = [x for x in a.did if x[0] == "tags"]
            if name != "dead":
                if a.did or a.ok:
                    say("put_tags", case, "the server accepts this" if a.ok else f"the server does {a.did[0][0]}")
                    break
                continue
            if len(calls) != 1 or len(a.did) != 1:
                say("put_tags", case, "the server does not change the tags" if not calls else "the server does more than "
                    "changing the tags")
                break
            _, on, given = calls[0]
            given = dict(given)
            want = {"action": repr(("c", "set")), "revision": repr(("c", "uuid-1")), "tags": s(new), "expect": s(old)}
            bad = [k for k, v in want.items() if k in given and given[k] != v or k not in given and k != "action"]
            if given.get("autoremove", repr(("c", False))) != repr(("c", auto)):
                bad.append("autoremove")
            if given.get("force", repr(("c", False))) == repr(("c", False)):
                bad.append("force")
            if on != name:
                bad.append("backup")
            bad = [k for k in bad if given.get(k) != repr(None)]
            if bad:
                say("put_tags", case, f"the server gets {bad[0]} {given.get(bad[0])}")
                break
            if a.ok != (tags == "True"):
                say("put_tags", case, "the client is told that it " + ("worked" if a.ok else "failed"))
                break
        else:
            continue
        break
    for method, what, allowed in (("run_purge", "purge", ("dead",)), ("touch_backup", "touch", ("dead", "mine")),
                                  ("run_job", "run", ("mine",))):
        for name in ("dead", "mine", "nowhere"):
            a = go(method, [const(name)], name)
            if a is None:
                continue
            want = [(what, name)] if name in allowed else []
            if [x[:2] for x in a.did] != want or a.ok != (name in allowed):
                say(method, f"{'a job' if name == 'mine' else 'a backup without a job' if name == 'dead' else 'unknown'}",
                    f"the server does {', '.join(f'{x[0]} {x[1]}' for x in a.did) or 'nothing'} and "
                    f"answers {a.status or 'with success'}")
    for clean in (True, False):
        for name in ("dead", "mine", "nowhere"):
            case = f"revisions of {name}, {'complete ones' if clean else 'all'}"
            a = go("get_revs", [repo(name), const(clean)], case)
            if a is None:
                continue
            if name == "nowhere":
                if a.ok:
                    say("get_revs", case, "the server answers with success")
                continue
            hist = [x for x in a.did if x[0] == "history"]
            if not a.ok:
                say("get_revs", case, f"the server answers {a.status}")
            elif hist and hist[0][1] != name:
                say("get_revs", case, f"the server answers with those of {hist[0][1]}")
            elif hist and dict(hist[0][2]).get("clean", repr(("c", False))) not in (repr(("c", clean)), repr(None)):
                say("get_revs", case, "the server answers with " + ("all" if clean else "complete ones only"))
    for method, want in (("list_backups", {"dead", "gone"}),):
        a = go(method, [], "no arguments")
        if a is None or a.answer is None or a.answer[0] not in ("t", "s"):
            continue
        got = {x[1] for x in a.answer[1]}
        if got != want or not a.ok:
            say(method, "two jobs, two backups without a job", f"the server lists {sorted(got)}")
    a = go("reload_daemon", [], "no arguments")
    if a is not None and (not a.ok or [x[0] for x in a.did] != ["reload"]):
        say("reload_daemon", "reload", f"the server does {[x[0] for x in a.did]}")
