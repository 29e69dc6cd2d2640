"""Both sides of the API agree."""
from .util import *
from .c19 import routes, is_attr, short, members

VERBS = ("get", "post", "put", "delete", "patch", "head", "request")
# what a client asks for -> what has to happen on the server
WANT = {"fetch_status": "status", "reload_daemon": "reload", "get_jobs": "jobs", "run_job": "run",
        "list_backups": "backups", "run_purge": "purge", "touch_backup": "touch",
        "get_revs": "revs", "put_tags": "tags"}
TEXT = {"status": "report the status of the jobs", "reload": "reload the configuration",
        "jobs": "list the jobs", "run": "start the job", "backups": "list the backups",
        "purge": "request a purge", "touch": "touch the backup", "revs": "list the revisions",
        "tags": "set the tags"}
SERVER_OPAQUE = {"BackyDaemon.reload", "BackyDaemon.status", "Repository.scan", "Repository.tags",
                 "Repository.get_history", "Repository.set_purge_pending", "Repository.touch"}


def items(t, st):
    """key -> value of a dict"""
    out = {}
    if t is None or t[0] != "obj":
        return out
    for k, v in st.heap.get((t, "#k"), ()):
        if is_c(k):
            out[k[2]] = v
    return out


def segments(t):
    """path term -> list of segments, each a tuple of parts; the query part is cut off"""
    parts = t[1] if t[0] == "str" else (t,)
    segs = [()]
    for p in parts:
        if is_str(p):
            s = p[2].split("?")[0]
            for i, x in enumerate(s.split("/")):
                if i:
                    segs.append(())
                if x:
                    segs[-1] += (x,)
            if "?" in p[2]:
                break
        else:
            segs[-1] += (p,)
    return segs


def match(pattern, segs):
    """placeholders -> parts, or None"""
    pat = pattern.split("/")
    if len(pat) != len(segs):
        return None
    out = {}
    for a, b in zip(pat, segs):
        if a.startswith("{") and a.endswith("}"):
            if not b:
                return None
            out[a[1:-1].split(":")[0]] = b
        elif tuple(x for x in (a,) if x) != b:
            return None
    return out


class Calls(Monitor):
    """requests of a client method; state: (request made, checked)"""

    def __init__(self):
        self.reqs = []

    def event(self, ev, st, I):
        n = ev.name
        if ev.kind == "call" and n[1:] in VERBS and n[0] == "." and ev.args and (
                is_attr(ev.args[0], "session") or "session" in show(ev.args[0])):
            verb = n[1:].upper()
            a = list(ev.args[1:])
            kw = dict(ev.kw or {})
            if verb == "REQUEST":
                verb = cval(a.pop(0)) if a and is_str(a[0]) else None
            url = a[0] if a else kw.get("url", kw.get("path"))
            self.reqs.append((verb, url, kw, st, ev.loc()))
            st.mon = (("req", None))
        elif ev.kind == "call" and n == ".raise_for_status":
            st.mon = ("req", "raise")


class Scans(Monitor):
    def init(self):
        return False

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name.endswith("Repository.scan"):
            st.mon = True
        elif ev.kind == "call" and ev.name.endswith("Repository.find_revisions") and not st.mon:
            self.stale = True


def rescans(ctx):
    """Repository.tags reads the repository again by itself"""
    m = Scans()
    m.stale = False
    ctx.run(ctx.p.method("Repository", "tags"), m, opaque={
        "Repository.scan", "Repository.find_revisions", "Revision.remove", "Revision.write_info"})
    return not m.stale


class Handler(Monitor):
    """a request handler; state: effects seen"""
    branches = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.keys, self.query, self.json = set(), set(), set()
        self.flags = {}          # query key -> constants it is compared with
        self.tags = []           # arguments of Repository.tags
        self.hist = []
        self.success = []
        self.last = None
        self.rescans = rescans(ctx)

    def init(self):
        return frozenset()

    def on_throw(self, exc, st, I):
        e = I.last_event
        if e is not None and e.kind == "call" and self.last == (e.name, e.loc()):
            st.mon = st.mon - {"tags", "purge", "touch", "reload", "run"}
        n = short(exc[1]).rsplit(".", 1)[-1]
        if n in ("HTTPNoContent", "HTTPOk", "HTTPAccepted", "HTTPCreated", "HTTPSuccessful",
                 "HTTPResetContent", "HTTPNonAuthoritativeInformation", "HTTPPartialContent"):
            self.success.append((n, st.mon, st.path()))

    def scan(self, t, st):
        for s in reach(t, st):
            if s[0] == "app" and s[1] == ".get" and len(s[2]) > 1 and is_str(s[2][1]) \
                    or s[0] == "idx" and is_str(s[2]):
                base, key = (s[2][0], s[2][1][2]) if s[0] == "app" else (s[1], s[2][2])
                if is_attr(base, "match_info"):
                    self.keys.add(key)
                elif is_attr(base, "query", "rel_url"):
                    self.query.add(key)
                elif base[0] == "app" and base[1] == ".json":
                    self.json.add(key)
            if s[0] == "cmp" and s[1] == "==":
                for x, y in ((s[2], s[3]), (s[3], s[2])):
                    if is_c(y):
                        k = self.qkey(x)
                        if k:
                            self.flags.setdefault(k, set()).add(y[2])

    @staticmethod
    def qkey(t):
        if t[0] == "app" and t[1] == ".get" and is_attr(t[2][0], "query") and is_str(t[2][1]):
            return t[2][1][2]
        if t[0] == "idx" and is_attr(t[1], "query") and is_str(t[2]):
            return t[2][2]

    def event(self, ev, st, I):
        for a in list(ev.args) + list(dict(ev.kw or {}).values()):
            if isinstance(a, tuple):
                self.scan(a, st)
        n = ev.name
        eff = None
        if ev.kind == "call":
            for q, e in (("BackyDaemon.reload", "reload"), ("BackyDaemon.status", "status"),
                         ("Repository.set_purge_pending", "purge"), ("Repository.touch", "touch"),
                         ("Repository.tags", "tags"), ("Repository.get_history", "revs"),
                         ("Repository.scan", "scan")):
                if n.endswith("." + q):
                    eff = e
            if n == ".set" and is_attr(ev.args[0], "run_immediately"):
                eff = "run"
            if n == "aiohttp.web.json_response" and ev.args:
                for s in reach(ev.args[0], st):
                    if is_attr(s, "dead_repositories"):
                        eff = "backups"
                    elif is_attr(s, "jobs") and eff is None:
                        eff = "jobs"
        if eff:
            if (eff == "revs" or eff == "tags" and not self.rescans) and "scan" not in st.mon:
                self.ctx.finding("C21.fresh", self.entry, "revisions are looked at without reading "
                                 "the repository again", ev.loc(), st.path())
            if eff in ("tags", "revs"):
                f = I.p.method("Repository", "tags" if eff == "tags" else "get_history")
                d = dict(zip([a.arg for a in f.node.args.args], ev.args))
                d.update(dict(ev.kw or {}))
                (self.tags if eff == "tags" else self.hist).append((d, st, ev.loc(), st.path()))
            st.mon = st.mon | {eff}
            self.last = (n, ev.loc())

    def json_key(self, t, st):
        out = set()
        for s in reach(t, st):
            if s[0] == "idx" and is_str(s[2]) and s[1][0] == "app" and s[1][1] == ".json" or \
                    s[0] == "app" and s[1] == ".get" and s[2][0][0] == "app" and \
                    s[2][0][1] == ".json" and is_str(s[2][1]):
                out.add(s[2][2] if s[0] == "idx" else s[2][1][2])
        return out

    def query_key(self, t, st):
        return {k for s in reach(t, st) for k in [self.qkey(s)] if k}


def arg(name):
    return ("sym", name, None)


def check_client(ctx, r):
    p = ctx.p
    handlers = {}
    for m, want in WANT.items():
        f = p.try_method("Client", m)
        if f is None:
            continue
        entry = f"Client.{m}"
        col = Calls()
        I, out, exc = ctx.run(f, col, opaque={"Revision.from_dict"})
        if not col.reqs:
            ctx.finding("C21.request", entry, "no request is sent", f.qual, ())
            continue
        values = {}
        for _, _, kw, st, _ in col.reqs:
            for k, v in items(kw.get("params"), st).items():
                values.setdefault(k, set()).add(v)
        for verb, url, kw, st, loc in col.reqs:
            if url is None or verb is None or not (is_str(url) or url[0] == "str"):
                continue
            segs = segments(url)
            hits = []
            same = []
            for v, path, h, _ in r.routes:
                if not is_str(path) or h[0] != "func":
                    continue
                ph = match(path[2], segs)
                if ph is not None:
                    (hits if v == verb else same).append((v, path[2], h, ph))
            ctx.saw("requests", f"{m}: {verb} {show(url)}")
            if not hits:
                ctx.finding("C21.route", entry, f"the server has no route for {verb} {show(url)}"
                            + (f" (only {', '.join(x[0] for x in same)})" if same else ""), loc,
                            st.path())
                continue
            hits.sort(key=lambda x: len(x[3]))      # constant segments win
            v, path, h, ph = hits[0]
            hf = p.funcs[h[1]]
            if hf not in handlers:
                hm = Handler(ctx, short(hf.qual))
                I2, hout, hexc = ctx.run(hf, hm, opaque=SERVER_OPAQUE)
                for val, hst in hout:
                    hm.success.append(("return", hst.mon, hst.path()))
                handlers[hf] = hm
            hm = handlers[hf]
            for n, mon, pth in hm.success:
                if want not in mon:
                    ctx.finding("C21.effect", entry, f"asks the server to {TEXT[want]}, but "
                                f"{hm.entry} answers with success without doing so", hf.qual, pth)
                    break
            if not hm.success:
                ctx.finding("C21.effect", entry, f"{hm.entry} never answers with success", hf.qual,
                            ())
            for k in sorted(hm.keys - set(ph)):
                ctx.finding("C21.route", hm.entry, f"the path {path} has no part {k}", hf.qual, ())
            if want == "tags":
                check_placeholders(ctx, entry, hm, ph, loc)
            check_params(ctx, entry, m, f, hm, kw, st, loc, values)
            if want == "tags":
                check_json(ctx, entry, hm, kw, st, loc)
            if want == "revs":
                for d, hst, hloc, pth in hm.hist:
                    if d.get("local") != TRUE:
                        ctx.finding("C21.own", hm.entry, "revisions of other servers are handed "
                                    "out as own ones", hloc, pth)
    return handlers


def check_placeholders(ctx, entry, hm, ph, loc):
    for d, st, hloc, pth in hm.tags:
        spec = d.get("revision", d.get("spec"))
        names = [a for a in d if a not in ("self",)]
        for a, t in d.items():
            for s in subterms(t):
                k = None
                if s[0] == "app" and s[1] == ".get" and is_attr(s[2][0], "match_info"):
                    k = cval(s[2][1])
                elif s[0] == "idx" and is_attr(s[1], "match_info"):
                    k = cval(s[2])
                if k in ph:
                    uuid = any(is_attr(x, "uuid") for y in ph[k] if isinstance(y, tuple)
                               for x in subterms(y))
                    if (a != "self") != uuid:
                        ctx.finding("C21.route", entry, f"the server takes {k} for the "
                                    + ("revision" if a != "self" else "backup") + ", the client "
                                    "sends something else", loc, ())


def check_params(ctx, entry, m, f, hm, kw, st, loc, values):
    params = kw.get("params")
    sent = items(params, st)
    known = params is None or params[0] == "obj"
    names = {a.arg for a in f.node.args.args[1:]}
    if not known:
        return
    for k in sorted(map(str, set(sent) - hm.query)):
        ctx.finding("C21.params", entry, f"the parameter {k} is ignored by the server", loc,
                    st.path())
    for k in sorted(hm.query - set(sent)):
        if k in names:
            ctx.finding("C21.params", entry, f"the parameter {k} is never sent", loc, st.path())
    for k, v in sent.items():
        consts = hm.flags.get(k)
        if v[0] == "app" and v[1] == "int" and consts and all(isinstance(c, str) for c in consts) \
                and not consts & {"1", "0"}:
            ctx.finding("C21.params", entry, f"the server compares {k} with "
                        f"{', '.join(sorted(consts))}, the client sends 0 or 1", loc, st.path())
        if v[0] == "app" and v[1] == "str" and v[2] and v[2][0][0] == "sym" and consts and \
                "True" not in consts and "1" in consts:
            ctx.finding("C21.params", entry, f"the server compares {k} with "
                        f"{', '.join(sorted(consts))}, the client sends True or False", loc,
                        st.path())
        if v[0] == "sym" and k in names and v[1] in names and v[1] != k and k in hm.query:
            ctx.finding("C21.params", entry, f"the parameter {k} carries {v[1]}", loc, st.path())
        if v[0] == "c" and k in names and len(values.get(k, ())) < 2:
            ctx.finding("C21.params", entry, f"the parameter {k} is always {v[2]}", loc, st.path())
    for which, a, key in ((hm.tags, "autoremove", "autoremove"), (hm.hist, "clean", "only_clean")):
        for d, hst, hloc, pth in which:
            t = d.get(a)
            if key not in names:
                continue
            keys = hm.query_key(t, hst) if t is not None else set()
            if t is None or is_c(t) and not keys:
                facts = {k for at in hst.facts for k in hm.query_key(at, hst)}
                if key not in facts:
                    ctx.finding("C21.params", hm.entry, f"{key} of the request is not used as "
                                f"{a}", hloc, pth)
            elif keys and key not in keys:
                ctx.finding("C21.params", hm.entry, f"{sorted(keys)[0]} of the request is used as "
                            f"{a}", hloc, pth)


def check_json(ctx, entry, hm, kw, st, loc):
    body = kw.get("json")
    sent = items(body, st)
    if body is None or body[0] != "obj":
        if body is None and hm.json:
            ctx.finding("C21.body", entry, "the request has no content", loc, st.path())
        return
    for k in sorted(hm.json - set(sent)):
        ctx.finding("C21.body", entry, f"the server expects {k}", loc, st.path())
    for d, hst, hloc, pth in hm.tags:
        for a, attr in (("tags", "tags"), ("expect", "orig_tags")):
            t = d.get(a)
            keys = hm.json_key(t, hst) if t is not None else set()
            for k in keys & set(sent):
                at = {s[2] for s in reach(sent[k], st) if s[0] == "attr"} & {"tags", "orig_tags"}
                if at and attr not in at:
                    ctx.finding("C21.body", entry, f"{k} carries the {at.pop()} of the revision, "
                                f"the server takes it for the {'new' if a == 'tags' else 'expected'}"
                                " tags", loc, st.path())


class Session(Monitor):
    def __init__(self):
        self.made = []

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name.endswith("aiohttp.ClientSession"):
            self.made.append((ev, st, ev.loc(), st.path()))


def check_session(ctx):
    f = ctx.p.method("Client", "__init__")
    s = Session()
    names = [a.arg for a in f.node.args.args]
    ctx.run(f, s)
    raises = True
    for ev, st, loc, path in s.made:
        kw = dict(ev.kw or {})
        ctx.saw("sessions", loc)
        if kw.get("raise_for_status", FALSE) in (FALSE, NONE):
            raises = False
        hd = kw.get("headers")
        vals = [x for x in reach(hd, st)] if hd is not None else []
        ok = any(x[0] == "str" and is_str(x[1][0]) and x[1][0][2] == "Bearer "
                 and any(y[0] == "sym" and y[1] == "token" for y in x[1][1:]) for x in vals)
        if not ok and (hd is None or hd[0] == "obj"):
            ctx.finding("C21.token", "Client.__init__", "requests do not carry the token as bearer "
                        "token", loc, path)
        u = ev.args[0] if ev.args else kw.get("base_url")
        if u is not None and not any(y == ("sym", "url", None) or y[0] == "sym" and y[1] == "url"
                                     for y in subterms(u)):
            ctx.finding("C21.token", "Client.__init__", f"requests go to {show(u)}", loc, path)
        t = kw.get("timeout")
        if t is not None and (t == NONE or t[0] == "app" and (
                t[2][:1] == (NONE,) or not t[2] and not t[3])):
            if t == NONE or t[2][:1] == (NONE,):
                ctx.finding("C21.timeout", "Client.__init__", "a server that does not answer is "
                            "waited for forever", loc, path)
    if not raises:
        for m in WANT:
            f = ctx.p.try_method("Client", m)
            if f is None:
                continue
            col = Calls()
            I, out, exc = ctx.run(f, col, opaque={"Revision.from_dict"})
            for v, st in out:
                if st.mon == ("req", None):
                    ctx.finding("C21.error", f"Client.{m}", "a refused request is taken for an "
                                "accepted one: the status of the response is not checked", f.qual,
                                st.path())
                    break
    # from_conf: url and token of the configuration
    f = ctx.p.try_method("Client", "from_conf")
    if f is not None:
        e = Enter()
        ctx.run(f, e)
        for d, loc, path in e.seen:
            for n in ("url", "token"):
                t = d.get(n)
                keys = {cval(s[2]) for s in subterms(t) if s[0] == "idx" and is_str(s[2])} | {
                    cval(s[2][1]) for s in subterms(t) if s[0] == "app" and s[1] == ".get"
                    and is_str(s[2][1])} if t is not None else {None}
                if keys and n not in keys:
                    ctx.finding("C21.token", "Client.from_conf", f"the {n} of a client is "
                                f"{show(t) if t is not None else 'missing'}", loc, path)


class Enter(Monitor):
    def __init__(self):
        self.seen = []

    def event(self, ev, st, I):
        if ev.kind == "enter" and ev.name.endswith("Client.__init__"):
            names = [a.arg for a in I.p.method("Client", "__init__").node.args.args]
            self.seen.append((dict(zip(names, ev.args)), ev.loc(), st.path()))


class Filter(Monitor):
    """who asks for the status, with which filter"""

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def event(self, ev, st, I):
        if ev.kind != "call" or not ev.name.endswith("fetch_status"):
            return
        a = ev.args[1] if len(ev.args) > 1 else dict(ev.kw or {}).get("filter")
        self.ctx.saw("status queries", ev.loc())
        if a is None:
            return
        if a == NONE or is_attr(a, "jobs") and st.facts.get(a) is not True and \
                st.facts.get(("cmp", "is", a, NONE)) is not False:
            self.ctx.finding("C21.filter", self.entry, "None is sent as filter (the request cannot "
                             "be made)", ev.loc(), st.path())
        esc = any(s[0] == "app" and s[1].endswith("re.escape") for s in subterms(a))
        if any(is_attr(s, "name") for s in subterms(a)):
            parts = a[1] if a[0] == "str" else (a,)
            head, tail = parts[0], parts[-1]
            if not esc:
                self.ctx.finding("C21.filter", self.entry, "the name of the job is sent as regular "
                                 "expression: other jobs can match", ev.loc(), st.path())
            elif not (is_str(head) and head[2].startswith(("^", "\\A")) and is_str(tail)
                      and tail[2].endswith(("$", "\\Z"))):
                self.ctx.finding("C21.filter", self.entry, "the filter also matches jobs whose name "
                                 "contains the name of this job", ev.loc(), st.path())


class Keys(Monitor):
    branches = True

    def __init__(self, sources):
        self.sources, self.read = sources, {}

    def event(self, ev, st, I):
        for a in list(ev.args) + list(dict(ev.kw or {}).values()):
            if isinstance(a, tuple):
                for s in reach(a, st):
                    if s[0] == "idx" and is_str(s[2]) and any(
                            x[0] == "app" and any(x[1].endswith(n) for n in self.sources)
                            for x in subterms(s[1])):
                        self.read.setdefault(s[2][2], ev.loc())


def produced(ctx, f, opaque):
    """keys of the dicts that f returns (in lists)"""
    m = Made()
    I, out, exc = ctx.run(f, m, opaque=opaque)
    for v, st in out:
        m.add(v, st)
    return m.keys


class Made(Monitor):
    def __init__(self):
        self.keys = set()

    def add(self, t, st):
        for s in reach(t, st):
            if s[0] == "obj":
                for k, _ in st.heap.get((s, "#k"), ()):
                    if is_str(k):
                        self.keys.add(k[2])

    def event(self, ev, st, I):
        if ev.kind in ("mutate", "setitem", "new", "exit"):
            for a in ev.args:
                if isinstance(a, tuple):
                    self.add(a, st)
            if ev.kind == "setitem" and is_str(ev.args[1]):
                self.keys.add(ev.args[1][2])


def check_keys(ctx):
    p = ctx.p
    ropaque = {"Repository.get_history", "Repository.scan", "Repository.sla",
               "Repository.sla_overdue", "Repository.clean_history", "Schedule.sorted_tags",
               "Repository.report_ids", "Schedule.to_dict"}
    for server, attr, users in (
            (("BackyDaemon", "status"), ("Client.fetch_status",),
             (("Command", "show_jobs"), ("Job", "_wait_for_leader"), ("Client", "fetch_status"))),
            (("Job", "to_dict"), ("Client.get_jobs",),
             (("Command", "get_repos"), ("Command", "show_daemon")))):
        f = p.try_method(*server)
        if f is None:
            continue
        have = produced(ctx, f, ropaque)
        if not have:
            continue
        for u in users:
            g = p.try_method(*u)
            if g is None:
                continue
            src = attr if u[0] != "Client" else (".json",)
            m = Keys(src)
            ctx.run(g, m, opaque=set(attr) - {".".join(u)} | {
                "Client.list_backups", "Command.get_repos", "Repository.connect",
                "Schedule.from_dict", "Repository.get_history"} - {".".join(u)})
            for k, loc in sorted(m.read.items()):
                ctx.saw("response keys", f"{'.'.join(u)}: {k}")
                if k not in have:
                    ctx.finding("C21.response", ".".join(u), f"reads {k}, which "
                                f"{'.'.join(server)} does not report", loc, ())


def check(ctx):
    ctx.rule("C21.route", "every request of Client matches a route (verb, path, placeholders)")
    ctx.rule("C21.effect", "the handler of that route answers with success only after the effect "
             "the client method stands for")
    ctx.rule("C21.params", "query parameters and JSON keys sent are those read, with the same "
             "meaning; response keys read by the clients are reported by the server")
    ctx.rule("C21.error", "a response that is not a success raises in the client")
    ctx.rule("C21.own", "only own revisions are handed out, after reading the repository again")
    ctx.rule("C21.filter", "jobs ask other servers for exactly their own name")
    r = routes(ctx)
    check_client(ctx, r)
    from .roundtrip import roundtrip
    ctx.rule("C21.roundtrip", "constant propagation through a client method, the route of its request and the handler: "
             "the effect on the server and the answer are those asked for")
    roundtrip(ctx, r, "C21.roundtrip")
    check_session(ctx)
    for c, n in (("Command", "show_jobs"), ("Job", "_wait_for_leader")):
        f = ctx.p.try_method(c, n)
        if f is not None:
            ctx.run(f, Filter(ctx, f"{c}.{n}"), opaque={
                "Client.fetch_status", "Command.get_repos", "Client.list_backups",
                "Repository.get_history"})
    check_keys(ctx)
    ctx.need("requests")
    ctx.need("sessions")
