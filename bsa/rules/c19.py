"""Only requests with a configured token reach the daemon."""
from .util import *

FRAMEWORK = ("aiohttp.web.get", "aiohttp.web.post", "aiohttp.web.put", "aiohttp.web.delete",
             "aiohttp.web.patch", "aiohttp.web.head", "aiohttp.web.view", "aiohttp.web.route")


def is_attr(t, *names):
    return t[0] == "attr" and t[2] in names


def is_header(t):
    """the Authorization header of a request"""
    def name(k):
        return k[0] == "ext" and k[1].endswith("hdrs.AUTHORIZATION") or \
            is_str(k) and k[2].lower() == "authorization"
    return t[0] == "app" and t[1] in (".get", ".getone", ".getall") and len(t[2]) > 1 and \
        name(t[2][1]) or t[0] == "idx" and name(t[2])


def from_header(t):
    return any(is_header(s) for s in subterms(t))


def tokens(t):
    return any(is_attr(s, "tokens", "api_tokens") for s in subterms(t))


def lookup(t):
    """(key, default) of a lookup in the configured tokens"""
    if t[0] == "app" and t[1] == ".get" and is_attr(t[2][0], "tokens", "api_tokens"):
        return t[2][1], t[2][2] if len(t[2]) > 2 else NONE
    if t[0] == "idx" and is_attr(t[1], "tokens", "api_tokens"):
        return t[2], NONE
    return None


def members(t, st):
    if t[0] == "tuple":
        return list(t[1])
    if t[0] == "obj":
        return [i[1] for i in st.heap.get((t, "#c"), ()) if i[0] == "v"]
    return []


def routes(ctx):
    """(verb, path, handler, location) of every route, and the middlewares of the application"""
    col = Routes()
    f = ctx.p.method("BackyAPI", "__init__")
    ctx.run(f, col)
    return col


class Routes(Monitor):
    def __init__(self):
        self.routes, self.apps, self.mw, self.adds, self.other = [], [], {}, [], []

    def event(self, ev, st, I):
        n = ev.name
        if ev.kind != "call":
            return
        if n == "aiohttp.web.Application":
            self.apps.append(ev.result)
            m = dict(ev.kw or {}).get("middlewares")
            its = members(m, st) if m is not None else []
            self.mw[ev.result] = (its, ev.loc())
        elif n in FRAMEWORK:
            verb = n.rsplit(".", 1)[1].upper()
            a = list(ev.args)
            if verb == "ROUTE":
                verb = cval(a.pop(0)) if is_str(a[0]) else None
            if len(a) > 1:
                self.routes.append((verb, a[0], a[1], ev.loc()))
        elif n.startswith(".add_") and n != ".add_routes":
            verb = n[5:].upper()
            a = list(ev.args[1:])
            if verb == "ROUTE" and a:
                verb = cval(a.pop(0)) if is_str(a[0]) else None
            if verb in ("SUBAPP", "STATIC", "DOMAIN"):
                self.other.append((verb.lower(), ev.loc()))
            elif len(a) > 1:
                self.routes.append((verb, a[0], a[1], ev.loc()))
        elif n in (".append", "append") and ev.args and is_attr(ev.args[0], "middlewares"):
            for its, _ in self.mw.values():
                its.append(ev.args[1])


class Auth(Monitor):
    """one middleware; state: (bearer scheme checked, token known)"""
    branches = True

    def __init__(self, ctx, entry, handler):
        self.ctx, self.entry, self.handler = ctx, entry, handler
        self.bad, self.ok, self.scheme, self.uses = [], 0, [], False

    def init(self):
        return (False, False)

    def event(self, ev, st, I):
        b, ok = st.mon
        if ev.kind == "fact":
            a, v = ev.args[0], cval(ev.args[1])
            if from_header(a):
                consts = [s[2] for s in subterms(a) if is_str(s)]
                if not tokens(a) and any(c.strip().lower() == "bearer" for c in consts) \
                        and self.positive(a, v):
                    b = True
                if tokens(a):
                    self.uses = True
                    if self.positive(a, v) and self.good(a):
                        ok = True
            st.mon = (b, ok)
        elif ev.kind == "call" and ev.name == "call" and ev.args and ev.args[0] == self.handler:
            held = ok or any(self.used(t) for t in list(st.env.values()))
            if not held:
                self.bad.append((ev.loc(), st.path()))
            elif not b:
                self.scheme.append((ev.loc(), st.path()))
            else:
                self.ok += 1

    @staticmethod
    def used(t):
        return isinstance(t, tuple) and any(s[0] == "idx" and is_attr(s[1], "tokens")
                                            and from_header(s[2]) for s in subterms(t))

    @staticmethod
    def positive(a, v):
        if a[0] == "cmp" and a[1] in ("is", "==") and any(is_c(x) and not x[2] for x in a[2:4]):
            return not v
        return bool(v)

    @staticmethod
    def good(a):
        """the condition cannot hold for a token that is not configured"""
        for s in subterms(a):
            k = lookup(s)
            if k is not None and (not from_header(k[0]) or not (is_c(k[1]) and not k[1][2])):
                return False
        return True


class Pass(Monitor):
    """a middleware: what the handler raises or returns is passed on.  state: handler raised"""

    def __init__(self, handler):
        self.handler = handler

    def init(self):
        return None

    def on_throw(self, exc, st, I):
        e = I.last_event
        if e is not None and e.kind == "call" and e.name == "call" and e.args[0] == self.handler:
            st.mon = "raised"

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name == "call" and ev.args and ev.args[0] == self.handler:
            st.mon = "called"


def check_middlewares(ctx, r):
    if not r.apps:
        return
    for n, (verb, path, h, loc) in enumerate(r.routes):
        ctx.saw("routes", f"{verb} {cval(path) if is_str(path) else show(path)}")
    for kind, loc in r.other:
        ctx.finding("C19.other", "BackyAPI.__init__", f"an additional {kind} serves requests", loc,
                    ())
    found = 0
    bad = []
    for app in r.apps:
        its, loc = r.mw[app]
        good = 0
        for m in its:
            if m[0] != "func":
                continue
            f = ctx.p.funcs[m[1]]
            names = f.all_params()
            names = names[1:] if f.cls is not None else names
            if len(names) < 2:
                continue
            h = ("sym", names[1], None)
            a = Auth(ctx, f.name, h)
            ctx.run(f, a, args={names[1]: h})
            ctx.saw("middlewares", f.qual)
            if not a.bad and (a.ok or a.scheme):
                good += 1
                for loc2, path in a.scheme:
                    ctx.finding("C19.scheme", short(f.qual), "a token is accepted that was not "
                                "given as bearer token", loc2, path)
            if a.bad:
                bad += [(short(f.qual), a.uses) + x for x in a.bad]
            p = Pass(h)
            I, out, exc = ctx.run(f, p, args={names[1]: h})
            for v, st in out:
                if st.mon == "raised" and not any(s[0] == "exc" for s in subterms(v)):
                    ctx.finding("C19.errors", short(f.qual), "an error of the request handler is "
                                "answered with " + show(v), f.qual, st.path())
                if st.mon == "called" and v == NONE:
                    ctx.finding("C19.errors", short(f.qual), "the response of the request handler "
                                "is not passed on", f.qual, st.path())
        if not good:
            named = [b for b in bad if b[1]] or bad
            if named:
                q, _, loc2, path = named[0]
                ctx.finding("C19.auth", q, "requests reach the handlers without a configured token",
                            loc2, path)
            else:
                ctx.finding("C19.auth", "BackyAPI.__init__", "no middleware checks the token of "
                            "requests", loc, ())


def secret(t, st, seen=None):
    """t reveals a token"""
    if is_header(t) or is_attr(t, "tokens", "api_tokens") or t[0] == "sym" and t[1] in (
            "token", "tokens"):
        return True
    if is_attr(t, "headers") and t[1][0] in ("sym", "elem"):
        return True
    k = lookup(t)
    if k is not None:
        return secret(k[1], st)
    if t[0] == "app" and t[1] in (".get", ".getall") and is_attr(t[2][0], "headers"):
        return not is_str(t[2][1])
    if t[0] == "idx" and cval(t[2]) in ("token", "tokens") or t[0] == "app" and t[1] == ".get" \
            and len(t[2]) > 1 and cval(t[2][1]) in ("token", "tokens"):
        return True
    if t[0] in ("cmp", "not", "func", "c") or t[0] == "app" and t[1] in ("len", "bool", "type"):
        return False
    if t[0] == "obj":
        seen = seen if seen is not None else set()
        if t in seen:
            return False
        seen.add(t)
        return any(isinstance(x, tuple) and secret(x, st, seen) for w in ("#c", "#k")
                   for i in st.heap.get((t, w), ()) for x in i)
    if t[0] == "idx" or t[0] == "attr":
        return secret(t[1], st, seen) if t[0] == "idx" and not is_attr(t[1], "headers") else False
    kids = [x for x in t[1:] if isinstance(x, tuple)]
    return any(secret_any(x, st, seen) for x in kids)


def secret_any(x, st, seen):
    if x and isinstance(x[0], str):
        return secret(x, st, seen)
    return any(isinstance(y, tuple) and secret_any(y, st, seen) for y in x)


class Logs(Monitor):
    logs = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def event(self, ev, st, I):
        if ev.kind != "log":
            return
        self.ctx.saw("log calls", ev.loc())
        for a in list(ev.args) + [v for _, v in dict(ev.kw or {}).items()]:
            if secret(a, st) or is_attr(a, "peers", "api_cli_default"):
                self.ctx.finding("C19.secret", self.entry, f"{show(a)[:80]} is written to the log: "
                                 "it contains access tokens", ev.loc(), st.path())


def check_logs(ctx, r):
    fs = [("BackyAPI", "reconfigure"), ("Client", "__init__"), ("Client", "from_conf"),
          ("ClientManager", "__init__"), ("ClientManager", "__getitem__"),
          ("BackyDaemon", "_read_config"), ("BackyDaemon", "api_server_loop")]
    todo = [ctx.p.try_method(*x) for x in fs]
    for its, _ in r.mw.values():
        todo += [ctx.p.funcs[m[1]] for m in its if m[0] == "func"]
    todo += [ctx.p.funcs[h[1]] for _, _, h, _ in r.routes if h[0] == "func"]
    for f in dict.fromkeys(x for x in todo if x is not None):
        ctx.run(f, Logs(ctx, short(f.qual)), opaque={
            "BackyDaemon._apply_config", "BackyDaemon._read_config", "BackyDaemon.status",
            "Repository.tags", "BackyAPI.start"} - {short(f.qual)})


def chosen(t):
    """t is data of the request (and not merely selected by it)"""
    if t[0] == "sym":
        return t[1] == "request"
    if t[0] == "idx":
        return chosen(t[1])
    if t[0] == "app" and t[1].startswith("repo:"):
        return False
    if t[0] == "app" and t[1] == ".get" and not request_data(t[2][0]):
        return False
    if t[0] in ("cmp", "not"):
        return False
    return any(chosen_any(x) for x in t[1:] if isinstance(x, tuple))


def chosen_any(x):
    if x and isinstance(x[0], str):
        return chosen(x)
    return any(isinstance(y, tuple) and chosen_any(y) for y in x)


def request_data(t):
    return any(s[0] == "sym" and s[1] == "request" for s in subterms(t))


class Paths(Monitor):
    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.seen = set()

    def event(self, ev, st, I):
        if ev.kind not in ("call", "setattr"):
            return
        for a in ev.args:
            for s in subterms(a):
                if s in self.seen or s[0] not in ("join", "app"):
                    continue
                self.seen.add(s)
                if s[0] == "join" and chosen(s[2]) \
                        or s[0] == "app" and s[1] in ("pathlib.Path", "os.path.join") and any(
                            chosen(x) for x in s[2]):
                    self.ctx.finding("C19.path", self.entry, f"a path is made of request data: "
                                     f"{show(s)[:120]}", ev.loc(), st.path())


def check_paths(ctx, r):
    for verb, path, h, loc in r.routes:
        if h[0] != "func":
            continue
        f = ctx.p.funcs[h[1]]
        names = f.all_params()
        names = names[1:] if f.cls is not None else names
        ctx.saw("handlers", f.qual)
        ctx.run(f, Paths(ctx, short(f.qual)), args={names[0]: ("sym", "request", None)}, opaque={
            "BackyDaemon.reload", "BackyDaemon.status", "Repository.scan"})


def short(q):
    return ".".join(q.split(".")[-2:])


def check(ctx):
    ctx.rule("C19.auth", "the application has a middleware that calls the handler only on paths "
             "where a condition holds that relates the Authorization header to the configured "
             "tokens (and was given as bearer token)")
    ctx.rule("C19.errors", "middlewares pass on what the handler returns or raises")
    ctx.rule("C19.secret", "no log call gets a token, the tokens or the headers of a request")
    ctx.rule("C19.path", "no handler makes a path of request data; backups are looked up by name")
    r = routes(ctx)
    if not r.apps:
        ctx.need("applications")
    check_middlewares(ctx, r)
    check_logs(ctx, r)
    check_paths(ctx, r)
    ctx.need("routes")
    ctx.need("log calls")
