"""The source is only read; snapshots, mappings, children and requests are released."""
import ast

from ..interp import Budget
from .c31 import Heap, Times
from .util import *

BACKUP = {"File.seek", "File.read", "File.close", "File.flush", "File.write", "File.truncate",
          "File.__init__", "RBDSource.verify", "RBDDiffV1.integrate", "RBDDiffV1.read_header",
          "Revision.write_info", "Revision.set_link", "Revision.remove", "Repository.add_report",
          "Repository.distrust", "CephRBD.get_parent"}
READ_ONLY = {"info", "export", "export-diff", "unmap", "showmapped", "device", "ls", "du", "diff",
             "status", "--version", "help", "version"}
OPTIONS_WITH_VALUE = {"--from-snap", "--format", "--pool", "--image", "-p", "--snap"}


def expand(t, st, depth=0):
    """The words of a command line; None for a part that is not known."""
    if depth > 6:
        return [None]
    if t[0] == "tuple":
        return [x for a in t[1] for x in (expand(a[1], st, depth + 1) if a[0] == "star" else [a])]
    if t[0] == "app" and t[1] in ("filter", "list", "tuple", "iter", "sorted") and t[2]:
        return expand(t[2][-1], st, depth + 1)
    if t[0] == "conv":
        return expand(t[2], st, depth + 1)
    if t[0] == "bin" and t[1] == "+":
        return expand(t[2], st, depth + 1) + expand(t[3], st, depth + 1)
    if t[0] == "comp":
        root, conds, partial = root_of(t)
        return expand(root, st, depth + 1) if not partial else [None]
    items = st.heap.get((t, "#c"))
    if items is None:
        return [None]
    out = []
    for i in items:
        if i[0] == "v":
            out.append(i[1])
        elif i[0] == "all":
            out += expand(i[1], st, depth + 1)
        else:
            out.append(None)
    return [w for w in out if w != C("")]


def text(t):
    """Constant parts of a string term."""
    return "".join(s[2] for s in subterms(t) if is_str(s))


def verb_of(words):
    """(verb, arguments) of an rbd command line, or None for other programs"""
    if not words or words[0] is None:
        return None
    if "RBD" not in "".join(str(s[1]) for s in subterms(words[0]) if s[0] in ("ext", "attr", "sym")) \
            and cval(words[0]) not in ("rbd",):
        return None
    rest = [w for w in words[1:]]
    plain = [w for w in rest if not (is_str(w) and w[2].startswith("-")) or w == C("--version")] \
        if None not in rest else [w for w in rest if w is None or not (
            is_str(w) and w[2].startswith("-") and w != C("--version"))]
    if not plain:
        return None
    v = plain[0]
    if v is None or not is_str(v):
        return "?", rest
    if v == C("snap") and len(plain) > 1 and plain[1] is not None and is_str(plain[1]):
        return "snap " + plain[1][2], [w for w in rest if w not in (v, plain[1])]
    return v[2], [w for w in rest if w != v]


class Source(Monitor):
    """state: (snapshot made, cleaned up since, mapped, ((process, closed), ...), existing)"""

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return (False, False, None, (), ())

    def report(self, rule, msg, loc, st):
        self.ctx.finding(rule, self.entry, msg, loc, st.path())

    def on_throw(self, exc, st, I):
        e = I.last_event
        if e is not None and e.name == "proc.spawn":
            snap, clean, mapped, procs, exist = st.mon
            r = e.result
            procs = tuple(p for p in procs if p[0] != r)
            c = verb_of(expand(e.args[0], st))
            if c and c[0] == "snap create":
                snap = False
            if c and c[0] == "map":
                mapped = None
            if c and c[0] == "info":
                exist = ()
            st.mon = (snap, clean, mapped, procs, exist)
        elif e is not None and e.name.endswith("create_snapshot"):
            st.mon = (False,) + st.mon[1:]
        elif e is not None and e.name == "fs.open" and isinstance(st.mon[2], tuple):
            st.mon = st.mon[:2] + ("known",) + st.mon[3:]
        elif e is not None and e.name in (".close", "file.close") and e.args[0][0] == "attr":
            st.mon = st.mon[:3] + (tuple(p for p in st.mon[3] if p[0] != e.args[0][1]),) + st.mon[4:]

    def event(self, ev, st, I):
        snap, clean, mapped, procs, exist = st.mon
        n = ev.name
        if ev.kind == "call" and n == "proc.spawn":
            words = expand(ev.args[0], st)
            c = verb_of(words)
            if ev.result is not None and ev.result[0] == "app" and ev.result[1].endswith("Popen"):
                pipe = any("PIPE" in show(v) for k, v in (ev.kw or {}).items() if k == "stdout")
                procs = tuple(p for p in procs if p[0] != ev.result) + ((ev.result, not pipe),)
                self.ctx.saw("programs", f"{self.entry}: {ev.where()}")
            if c:
                verb, args = c
                self.ctx.saw("rbd commands", f"{self.entry}: {verb}")
                self.command(verb, args, ev, st)
                if verb == "snap create":
                    snap, clean = True, False
                elif verb == "snap ls":
                    clean = True
                elif verb in ("export", "export-diff"):
                    clean = False
                elif verb == "map":
                    mapped = "pending"
                    clean = False
                elif verb == "unmap":
                    if isinstance(mapped, tuple):
                        self.report("C17.unmap", "the device is unmapped while it is still open, which fails",
                                    ev.loc(), st)
                    mapped = None
                elif verb == "info":
                    exist = tuple(a for a in args if a is not None and not is_str(a))
        elif ev.kind == "call" and n == "fs.open" and mapped and any(
                s == C("device") for s in subterms(ev.args[0])):
            if is_write_mode(ev.args[1]):
                self.report("C17.readonly", "the mapped device is opened for writing", ev.loc(), st)
            mapped = ("open", ev.result)
        elif ev.kind == "call" and n == "file.close" and isinstance(mapped, tuple) and ev.args[0] == mapped[1]:
            mapped = "known"
        elif ev.kind == "exit" and n.endswith("RBDClient.map") and mapped and ev.extra is None \
                and ev.args[0][0] != "exc":
            mapped = "known"
        elif ev.kind == "call" and n in (".wait", ".communicate", ".__exit__") and ev.args:
            d = dict(procs)
            if ev.args[0] in d:
                if n == ".wait" and not d[ev.args[0]]:
                    self.report("C17.pipe", "the program is waited for while its output is "
                                "neither read to the end nor closed", ev.loc(), st)
                del d[ev.args[0]]
                procs = tuple(d.items())
        elif n == "cm.exit" and ev.args and ev.args[0] in dict(procs):
            procs = tuple(p for p in procs if p[0] != ev.args[0])
        elif ev.kind == "call" and n in (".close", "file.close") and ev.args and \
                ev.args[0][0] == "attr" and ev.args[0][1] in dict(procs):
            procs = tuple((p, True if p == ev.args[0][1] else c) for p, c in procs)
        elif ev.kind == "call" and n.endswith("create_snapshot"):
            snap, clean = True, False
        st.mon = (snap, clean, mapped, procs, exist)

    def command(self, verb, args, ev, st):
        if verb == "map":
            if None not in args and C("--read-only") not in args and not any(
                    is_str(a) and a[2] in ("--read-only", "-oro") for a in args):
                self.report("C17.readonly", "the image is mapped writable", ev.loc(), st)
        elif verb in ("snap create", "snap rm"):
            img = [a for a in args if a is not None and not (is_str(a) and a[2].startswith("-"))]
            if verb == "snap create" and img and not any("backy-" in text(a) for a in img) \
                    and not any(s[0] == "sym" for a in img for s in subterms(a)
                                if s[0] == "sym" and s[1] in ("name", "image")):
                self.report("C17.own", f"a snapshot is created that is not named after the revision: "
                            f"{', '.join(show(a) for a in img)}", ev.loc(), st)
        elif verb not in READ_ONLY and verb not in ("snap ls", "?"):
            self.report("C17.readonly", f"rbd {verb} modifies the source", ev.loc(), st)

    def over(self, res, how):
        for v, st in res:
            snap, clean, mapped, procs, exist = st.mon
            self.ctx.saw("exits", f"{self.entry} ({how})")
            if snap and not clean:
                self.report("C17.cleanup", f"the snapshots are not cleaned up when the backup ends "
                            f"({how})", "", st)
            if mapped and mapped != "pending":
                self.report("C17.unmap", f"the image stays mapped ({how})", "", st)
            for p, _ in procs if v[1] != "AssertionError" else ():
                self.report("C17.child", f"nobody waits for {show(p)} ({how})", "", st)


class Base(Monitor):
    """state: (arguments of the last query for a snapshot, values known to be None)"""
    branches = True

    def __init__(self, ctx):
        self.ctx = ctx

    def init(self):
        return (), ()

    def on_throw(self, exc, st, I):
        e = I.last_event
        if e is not None and e.name == "proc.spawn":
            st.mon = (), st.mon[1]

    def event(self, ev, st, I):
        exist, none = st.mon
        if ev.kind == "call" and ev.name == "proc.spawn":
            c = verb_of(expand(ev.args[0], st))
            if c and c[0] == "info":
                exist = tuple(a for a in c[1] if a is not None and not is_str(a))
        elif ev.kind == "call" and ev.name == "repo:Revision.get_parent":
            none = tuple(x for x in none if x != ev.result)
        elif ev.kind == "fact":
            a, v = ev.args[0], ev.args[1] == TRUE
            if a[0] == "cmp" and a[1] == "is" and NONE in a[2:4]:
                a, v = a[3] if a[2] == NONE else a[2], not v
            if a[0] in ("loop", "app", "res") and not v:
                none = (none + (a,))[-3:] if a not in none else none
        st.mon = exist, none

    def over(self, out):
        for v, st in out:
            exist, none = st.mon
            if v == NONE or v in none or st.facts.get(v) is False:
                continue
            self.ctx.saw("parents", show(v))
            if not any("backy-" in text(e) and any(
                    x == ("attr", v, "uuid") or x[0] == "attr" and x[2] == "uuid" and x[1] == v
                    for x in subterms(e)) for e in exist):
                self.ctx.finding("C17.base", "CephRBD.get_parent",
                                 f"{show(v)} is chosen as the base of a difference, although its "
                                 "snapshot was not found", "", st.path())


def elems_of(t):
    """The element of the collection a derived one was made of."""
    while t[0] == "elem" and t[1][0] == "comp" and t[1][2]:
        t = t[1][2][0][1]
    return t


class Cleanup(Monitor):
    """state: (snapshot looked at, prefix, other than the one kept, removed, no reason to keep)"""
    branches = True
    loops = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return (None, None, None, False, False, False)

    def on_throw(self, exc, st, I):
        if exc[1] in ("LookupError", "KeyError"):   # a snapshot without a name
            st.mon = st.mon[:3] + (True,) + st.mon[4:]

    def event(self, ev, st, I):
        el, prefix, other, removed, free, listed = st.mon
        if ev.kind == "call" and ev.name == "proc.spawn":
            c = verb_of(expand(ev.args[0], st))
            if c and c[0] == "snap ls":
                listed = ev.result
            if c and c[0] == "snap rm":
                self.ctx.saw("removals", ev.loc())
                img = [a for a in c[1] if a is not None]
                named = any("backy-" in text(a) for a in img)
                if prefix is not True and not named:
                    self.ctx.finding("C17.own", self.entry, "a snapshot is removed that backy did not "
                                     "make (its name is not checked)", ev.loc(), st.path())
                if other is not True and not free:
                    self.ctx.finding("C17.keep", self.entry, "the snapshot of the newest revision may "
                                     "be removed", ev.loc(), st.path())
                removed = True
        elif ev.kind == "loopend" and ev.name in ("break", "return") and el is not None and \
                listed and any(s == listed for s in subterms(ev.args[0])):
            self.ctx.finding("C17.cleanup", self.entry, "the removal of snapshots stops early",
                             ev.loc(), st.path())
        elif ev.kind == "iter" and isinstance(ev.node, ast.For) and listed and any(s == listed for s in subterms(ev.args[0])):
            el, prefix, other, removed = ev.args[1], None, None, False
            el = elems_of(ev.args[1])
            for a, v in st.facts.items():
                if mentions(a, el):
                    prefix, other, free = self.learn(a, v, el, prefix, other, free)
        elif ev.kind == "iterend" and el is not None and elems_of(ev.args[1]) == el:
            self.ctx.saw("snapshots considered", f"{prefix} {other}")
            if prefix is not False and other is not False and not removed:
                self.ctx.finding("C17.cleanup", self.entry, "a snapshot that is not needed any more is "
                                 "not removed", ev.loc(), st.path())
            el = None
        elif ev.kind == "fact":
            prefix, other, free = self.learn(ev.args[0], ev.args[1] == TRUE, el, prefix, other, free)
        st.mon = (el, prefix, other, removed, free, listed)

    def learn(self, a, v, el, prefix, other, free):
        if a[0] == "app" and a[1] == ".startswith" and len(a[2]) > 1:
            if a[2][1] == C("backy-"):
                prefix = v
        elif a[0] == "cmp" and a[1] in ("==", "!=", "is") and el is not None and mentions(a, el):
            o = [x for x in a[2:4] if not mentions(x, el)]
            if o and (o[0] == NONE or self.newest(o[0])):
                if (v == (a[1] != "!=")) is False:
                    other = True
                    if o[0] == NONE and not free:
                        other = None
                else:
                    other = False
        elif a[0] == "attr" and a[2] == "always_full":
            free = free or v
        elif "history" in show(a) and a[0] != "cmp" and not v:
            free = True
        return prefix, other, free

    def newest(self, t):
        for s in subterms(t):
            if s[0] == "idx" and s[2] in (C(-1),) or s[0] == "app" and s[1] == "max":
                return True
            if s[0] == "attr" and s[2] == "revision":
                return False
        return t[0] not in ("c",)


class Request(Monitor):
    """Snapshot requests in consul.
    state: (made, looked for, snapshot seen, item, garbage, own vm, own prefix, removed)"""
    branches = True
    loops = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return (False, False, False, None, False, None, None, False, False)

    def report(self, rule, msg, loc, st):
        self.ctx.finding(rule, self.entry, msg, loc, st.path())

    @staticmethod
    def kv(t):
        return any(s[0] == "attr" and s[2] == "kv" for s in subterms(t))

    def on_throw(self, exc, st, I):
        e = I.last_event
        if e is not None and e.name == "proc.spawn":
            st.mon = st.mon[:2] + (st.mon[8],) + st.mon[3:]

    def event(self, ev, st, I):
        made, looked, snap, el, garbage, vm, prefix, removed, before = st.mon
        if ev.kind == "setitem" and self.kv(ev.args[0]):
            made, looked = True, False
            self.ctx.saw("requests", ev.loc())
            key = ev.args[1]
            if not text(key).startswith("snapshot/"):
                self.report("C17.requests", f"the request is made under {show(key)}", ev.loc(), st)
        elif ev.kind == "call" and ev.name == ".find" and self.kv(ev.args[0]):
            looked = True
        elif ev.kind == "call" and ev.name == "proc.spawn":
            c = verb_of(expand(ev.args[0], st))
            if c and c[0] == "snap create":
                before = snap
                snap = True
        elif ev.kind == "iter" and any(s[0] == "app" and s[1] == ".find" for s in subterms(ev.args[0])):
            el, garbage, vm, prefix, removed = ev.args[1], False, None, None, False
            self.ctx.saw("requests considered", ev.loc())
        elif ev.kind == "iterend" and el is not None and ev.args[1] == el:
            if not removed and (garbage == "json" or vm is True and prefix is True):
                self.report("C17.requests", "a request that is no longer needed is not removed "
                            + ("(it is garbage)" if garbage else ""), ev.loc(), st)
            el = None
        elif ev.kind == "handler" and el is not None:
            garbage = "json" if "JSON" in ev.name or "Value" in ev.name else "gone"
        elif ev.kind == "delitem" and self.kv(ev.args[0]):
            removed = True
            if el is not None and garbage != "json" and not (vm is True and prefix is True):
                self.report("C17.requests", "a request of another VM or another program is removed",
                            ev.loc(), st)
        elif ev.kind == "fact":
            a, v = ev.args[0], ev.args[1] == TRUE
            if el is not None and mentions(a, el) and not (a[0] == "cmp" and a[1] == "in"):
                if garbage and not removed or garbage:
                    self.report("C17.requests", "a request that cannot be read is used", ev.loc(), st)
                if a[0] == "cmp" and a[1] in ("==", "!=") and any(
                        s[0] == "attr" and s[2] == "vm" for s in subterms(a)):
                    vm = v == (a[1] == "==")
                elif a[0] == "app" and a[1] == ".startswith":
                    prefix = v if text(a[2][1]).startswith("backy-") else prefix
            if a[0] == "cmp" and a[1] in ("==", "in") and v and any(s == C("name") for s in subterms(a)) \
                    and any(s[0] == "sym" and s[1] == "name" for s in subterms(a)):
                snap = True
        st.mon = (made, looked, snap, el, garbage, vm, prefix, removed, before)

    def over(self, out, exc):
        for how, res in (("returns", out), ("raises an error", exc)):
            for v, st in res:
                made, looked, snap = st.mon[:3]
                self.ctx.saw("exits", f"{self.entry} ({how})")
                if made and not looked:
                    self.report("C17.requests", f"the request for the snapshot is left behind ({how})",
                                "", st)
                if how == "returns" and not snap:
                    self.report("C17.snapshot", "the backup starts although the snapshot does not exist",
                                "", st)


class Sessions(Monitor):
    """state: the client managers not closed"""

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return ()

    def event(self, ev, st, I):
        if ev.kind == "new" and ev.name.endswith("ClientManager"):
            self.ctx.saw("client sessions", self.entry)
            st.mon = tuple(x for x in st.mon if x != ev.args[0]) + (ev.args[0],)
        elif ev.kind in ("enter", "call") and ev.name.endswith(("ClientManager.close",
                                                               "ClientManager.__aexit__")):
            st.mon = tuple(x for x in st.mon if x != ev.args[0])

    def over(self, out, exc):
        for v, st in out + exc:
            if st.mon:
                self.ctx.finding("C17.session", self.entry, "the connections to other servers are not "
                                 "closed", "", st.path())


# revisions (oldest first: complete?, server), snapshots of the image, always_full
SNAPSHOTS = [
    (((1, ""), (1, "")), "01", False),
    (((1, ""), (1, "")), "01", True),
    (((1, ""),), "0xy", False),
    (((1, ""), (1, ""), (1, "b")), "012", False),
    (((1, ""), (1, "b")), "0", False),
    (((1, ""), (1, "")), "x01", False),
    (((1, "b"),), "0x", False),
    ((), "0x", False),
    ((), "", False),
    (((1, ""), (1, ""), (1, "")), "210", False),
    (((1, ""), (1, ""), (1, "")), "01", False),
    (((1, ""), (1, ""), (1, "")), "2", False),
]
FOREIGN = ["manual", "backyard", "Backy-1", "my-backy-uuid0"]


def snapshots(ctx):
    """CephRBD.__exit__ on abstract repositories and images."""
    e = "CephRBD.__exit__"
    f = ctx.p.try_method("CephRBD", "__exit__")
    ls, rm = (ctx.p.try_method("RBDClient", n) for n in ("snap_ls", "snap_rm"))
    trust = next((c.qual for c in ctx.p.class_by_qual.values()
                  if c.qual.endswith("revision.Trust")), None)
    if None in (f, ls, rm, trust):
        return
    for revs, snaps, full in SNAPSHOTS:
        h = Heap()
        repo = h.of("backy.repository.Repository")
        objs = [h.of("backy.revision.Revision", uuid=C(f"uuid{i}"), server=C(srv), repository=repo,
                     timestamp=C(1000 + i), trust=("enum", trust, "TRUSTED"),
                     tags=h.seq("set", [C("daily")]), stats=h.dict({"duration": C(3)} if cl else {}))
                for i, (cl, srv) in enumerate(revs)]
        h.h[(repo, "history")] = h.seq("list", objs)
        me = objs[-1] if objs else h.of("backy.revision.Revision", uuid=C("new"), server=C(""),
                                        repository=repo)
        src = h.of("backy.rbd.CephRBD", always_full=C(full), revision=me, pool=C("rbd"), image=C("vm"),
                   rbd=h.of("backy.rbd.rbd.RBDClient"), vm=NONE, consul_acl_token=NONE)
        names = FOREIGN + [f"backy-uuid{x}" for x in snaps]
        listed = h.seq("list", [h.dict({"name": C(n), "id": C(i)}) for i, n in enumerate(names)])
        removed = {}

        def remove(I, fv, args, kw, st, node, fr):
            a = [cval(x) for x in [*args, *kw.values()] if is_c(x) and isinstance(x[2], str)]
            if not a:
                return None
            st = st.copy()
            st.heap[(("sym", "#removed"), "#c")] = st.heap.get((("sym", "#removed"), "#c"), ()) + (
                ("v", C(a[0])),)
            return [(NONE, st)]
        m = Times()
        case = f"revisions {' '.join((s or 'local') for _, s in revs)}, snapshots {snaps}" + (
            ", always full" if full else "")
        args = {n: NONE for n in f.params()[1:]}
        try:
            I, out, exc = ctx.run(f, m, st=h.state(m), self_val=src, args=args, lookup=False, scan=False,
                                  subst={ls.qual: lambda *a: [(listed, a[4])], rm.qual: remove},
                                  max_steps=20000)
        except Budget:
            out, exc = [], []
        got = {tuple(cval(x[1]).partition("@")[2] for x in
                     st.heap.get((("sym", "#removed"), "#c"), ())) for _, st in out}
        if len(got) != 1 or any(x[0] == "exc" and x[2] for x, _ in exc):
            ctx.saw("undecided", case)
            continue
        ctx.saw("decided", case)
        got = set(got.pop())
        local = [f"backy-uuid{i}" for i, (_, srv) in enumerate(revs) if not srv]
        keep = {local[-1]} if local and not full else set()
        st = out[0][1]
        for n in sorted(got):
            if n in FOREIGN:
                ctx.finding("C17.own", e, f"{case}: removes the snapshot {n}, which backy did not "
                            "make", "", st.path())
            elif n in keep:
                ctx.finding("C17.keep", e, f"{case}: removes {n}, the snapshot of the newest local "
                            "revision", "", st.path())
        left = set(names) - set(FOREIGN) - got - keep
        if left:
            ctx.finding("C17.cleanup", e, f"{case}: {', '.join(sorted(left))} is not needed any more, "
                        "but not removed", "", st.path())


def check(ctx):
    snapshots(ctx)
    ctx.rule("C17.readonly", "nothing but reading and backy's own snapshots is done to the image")
    ctx.rule("C17.own", "only snapshots named backy-... are made and removed")
    ctx.rule("C17.keep", "the snapshot of the newest revision is not removed")
    ctx.rule("C17.cleanup", "every end of a backup removes the snapshots not needed any more")
    ctx.rule("C17.unmap", "a mapped image is unmapped on every exit")
    ctx.rule("C17.child", "every program started is waited for on every exit")
    ctx.rule("C17.pipe", "and cannot block on its output")
    ctx.rule("C17.base", "the base of an incremental export exists")
    ctx.rule("C17.snapshot", "the backup is made from an existing snapshot")
    ctx.rule("C17.requests", "snapshot requests are removed on every exit, others left alone")
    ctx.rule("C17.session", "connections to other servers are closed on every exit")
    op = {x for x in BACKUP if ctx.p.try_method(*x.split("."))}
    op |= {"CephRBD.create_snapshot", "utils.files_are_roughly_equal"}
    m = Source(ctx, "RBDSource.backup")
    I, out, exc = ctx.run("RBDSource.backup", m, opaque=op)
    m.over(out, "success")
    m.over(exc, "an error")
    for e in ("RBDClient.image_reader", "RBDClient.export", "RBDClient.export_diff",
              "RBDSource.restore", "CmdLineSource.backup", "CmdLineSource.gc",
              "CmdLineSource.verify", "CmdLineSource.restore"):
        m = Source(ctx, e)
        I, out, exc = ctx.run(e, m, opaque={x for x in op if x != "RBDSource.verify"})
        m.over(out, "success")
        m.over(exc, "an error")
    ctx.need("rbd commands", 5)
    ctx.need("programs", 3)

    m = Base(ctx)
    I, out, exc = ctx.run("CephRBD.get_parent", m, opaque={"Revision.get_parent"})
    m.over(out)

    m = Cleanup(ctx, "CephRBD.__exit__")
    ctx.run("CephRBD.__exit__", m, opaque={"Repository.get_history"})
    if not ctx.sites.get("removals"):
        ctx.finding("C17.cleanup", "CephRBD.__exit__", "no snapshot is ever removed", "")

    m = Source(ctx, "CephRBD.create_snapshot")
    ctx.run("CephRBD.create_snapshot", m)
    m = Request(ctx, "CephRBD.create_snapshot")
    I, out, exc = ctx.run("CephRBD.create_snapshot", m)
    m.over(out, exc)

    for e in ("Job._wait_for_leader", "Job.pull_metadata", "Job.push_metadata"):
        m = Sessions(ctx, e)
        I, out, exc = ctx.run(e, m, opaque={"Client.fetch_status", "Client.get_revs", "Client.put_tags",
                              "Client.touch_backup", "Client.run_purge", "Job._push_metadata_single",
                              "Job._pull_metadata_single", "Repository.get_history",
                              "utils.delay_or_event", "Revision.remove"}, cancel=True)
        m.over(out, exc)
