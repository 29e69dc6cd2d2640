"""What backy asks of Ceph and what it makes of the answers.

RBDClient and CephRBD.create_snapshot are analysed with constant propagation on
an abstract cluster: the rbd program answers as Ceph does (JSON texts in the
forms of its releases, exit codes), consul is a dictionary, time passes only in
sleep(). The commands given and the results are compared with what was asked."""
import json

from ..interp import Budget
from ..terms import strcat
from .c31 import Heap, Times, value
from .c17 import expand
from .util import *

VERSIONS = {"nautilus": "ceph version 14.2.22 (ca74598) nautilus (stable)\n",
            "luminous": "ceph version 12.2.13 (584a20e) luminous (stable)\n",
            "jewel": "ceph version 10.2.11\n", "none": ""}
ALIAS = {"--ro": "--read-only", "-o ro": "--read-only"}


class Cluster(Times):
    """state: (seconds passed, (what was done, ...))"""
    exact = True

    def __init__(self, answers, snap_at=None, fails=()):
        self.answers, self.snap_at, self.fails = answers, snap_at, fails
        self.odd = []
        self.ext = dict(Times.ext)
        self.ext.update({
            "subprocess.check_output": self.run_, "subprocess.check_call": self.run_, "subprocess.run": self.run_,
            "json.loads": self.loads, "json.dumps": self.dumps, "time.sleep": self.sleep, "time.time": self.time,
            "time.monotonic": self.time, "uuid.uuid4": lambda I, A, kw, st: C("new-request"),
            "consulate.Consul": self.connect, ("dict", "find"): self.find,
            "str": lambda I, A, kw, st: A[0] if A and is_str(A[0]) else None})

    consul = None

    def init(self):
        return (0, ())

    def done(self, st, x):
        st.mon = (st.mon[0], st.mon[1] + (x,))

    def connect(self, I, A, kw, st):
        st = st.copy()
        self.done(st, ("consul", (kw or {}).get("token", A[3] if len(A) > 3 else NONE)))
        return [(self.consul, st)]

    # -- time
    def time(self, I, A, kw, st):
        return C(1000 + st.mon[0])

    def sleep(self, I, A, kw, st):
        if not (A and is_c(A[0]) and isinstance(A[0][2], (int, float))):
            return None
        st = st.copy()
        if st.mon[0] > 100000:
            return []
        st.mon = (st.mon[0] + A[0][2], st.mon[1])
        return [(NONE, st)]

    # -- json
    def build(self, x, st):
        if isinstance(x, (dict, list)):
            o = ("obj", -50000 - len(st.heap), type(x).__name__)
            st.heap[(o, "#c")] = ()
            if isinstance(x, dict):
                vs = tuple((C(k), self.build(v, st)) for k, v in x.items())
                st.heap[(o, "#k")] = vs
                st.heap[(o, "#c")] = tuple(("v", C(k)) for k in x)
            else:
                st.heap[(o, "#c")] = tuple(("v", self.build(v, st)) for v in x)
            return o
        return C(x)

    def loads(self, I, A, kw, st):
        if A and A[0][0] == "obj":
            return A[0]         # consul's entries
        if not A or not is_str(A[0]):
            return None
        st = st.copy()
        try:
            return [(self.build(json.loads(A[0][2]), st), st)]
        except ValueError:
            I.throw(("exc", "json.decoder.JSONDecodeError", True), st)
            return []

    def dumps(self, I, A, kw, st):
        v = plain(value(A[0], st)) if A else None
        return C(json.dumps(v)) if v is not None else None

    # -- consul
    def find(self, I, A, kw, st):
        ks = [k for k, v in st.heap.get((A[0], "#k"), ())]
        pre = A[1][2] if len(A) > 1 and is_str(A[1]) else ""
        o = ("obj", -60000 - len(st.heap), "list")
        st.heap[(o, "#c")] = tuple(("v", k) for k in ks if is_str(k) and k[2].startswith(pre))
        return o

    # -- rbd
    def words(self, A, st):
        v = value(A[0], st) if A else None
        if v is None and A and A[0][0] in ("obj", "tuple"):
            its = st.heap.get((A[0], "#c"), (("?", None),)) if A[0][0] == "obj" else [("v", x) for x in A[0][1]]
            its = [i[1] if i[0] == "v" else None for i in its]
            if all(x is not None and is_c(x) for x in its[1:]):     # the program's name may be configured
                v = ("t", tuple(("c", x[2]) if is_c(x) else ("c", "rbd") for x in its))
        if v is None or v[0] != "t" or any(x[0] != "c" for x in v[1]):
            return None
        return tuple(x[1] for x in v[1])[1:]

    def run_(self, I, A, kw, st):
        w = self.words(A, st)
        if w is None:
            return None
        st = st.copy()
        fmt = None
        opts, pos = [], []
        it = iter(w)
        for x in it:
            if x in ("--format", "-o", "--options"):
                x = f"{x} {next(it, '')}"
            if x.startswith("--format"):
                fmt = x.split("=")[-1].split(" ")[-1]
            elif isinstance(x, str) and x.startswith("-"):
                opts.append(ALIAS.get(x, x))
            else:
                pos.append(x)
        cmd = tuple(pos) + tuple(sorted(opts))
        self.done(st, cmd)
        if pos and pos[0] in self.fails:
            I.throw(("exc", "subprocess.CalledProcessError", True), st)
            return []
        if not cmd:
            return [(C(""), st)]
        key = opts[0] if not pos else " ".join(pos[:2]) if pos[0] == "snap" else pos[0]
        a = self.answers.get(key, "")
        if callable(a):
            a = a(st)
        if not isinstance(a, str):
            a = json.dumps(a) if fmt == "json" else "Some text"
        return [(C(a), st)]


def plain(v):
    if v is None:
        return None
    if v[0] == "c":
        return v[1]
    if v[0] == "d":
        return {plain(k): plain(x) for k, x in v[1]}
    return [plain(x) for x in v[1]]


def drive(ctx, m, f, case, self_val, args, h):
    try:
        I, out, exc = ctx.run(f, m, st=h.state(m), self_val=self_val, args=args, lookup=False, scan=False,
                              max_steps=40000)
    except Budget:
        ctx.saw("undecided", f"{case}: too many paths")
        return None
    sure = [(e, st) for e, st in exc if e[0] == "exc" and e[2]]
    res = [(value(v, st), v, st) for v, st in out]
    if len({(r[0], r[2].mon[1]) for r in res}) > 1 or not res and not sure:
        ctx.saw("undecided", f"{case}: {len(res)} answers")
        return None
    ctx.saw("decided", case)
    if res:
        return "value", res[0][0], res[0][2]
    return "raises", sure[0][0][1], sure[0][1]


def client(h):
    return h.of("backy.rbd.rbd.RBDClient", log=("sym", "log", None))


def mappings(release, entries):
    if release == "nautilus":
        return [dict(e, id=str(i)) for i, e in enumerate(entries)]
    return {str(i): dict(e) for i, e in enumerate(entries)}


def entry(pool, name, snap, dev):
    return {"pool": pool, "name": name, "snap": snap, "device": dev}


OTHERS = [entry("rbd", "img", "-", "/dev/rbd0"), entry("rbd", "img", "backy-new2", "/dev/rbd7"), entry("rbd", "img", "backy-old", "/dev/rbd1"),
          entry("ssd", "img", "backy-new", "/dev/rbd2"), entry("rbd", "img2", "backy-new", "/dev/rbd3"),
          entry("rbd", "im", "backy-new", "/dev/rbd9")]
MINE = entry("rbd", "img", "backy-new", "/dev/rbd4")


def mapping(ctx):
    f = ctx.p.try_method("RBDClient", "map")
    if f is None:
        return
    ps = f.params()[1:]
    E = "RBDClient.map"
    for release, version in VERSIONS.items():
        for ro in (True, False):
            for where, es in (("last", OTHERS + [MINE]), ("first", [MINE] + OTHERS), ("missing", OTHERS)):
                h = Heap()
                m = Cluster({"--version": version, "showmapped": mappings(release, es)})
                args = {ps[0]: C("rbd/img@backy-new")}
                if len(ps) > 1:
                    args[ps[1]] = C(ro)
                r = drive(ctx, m, f, f"map, {release}, read-only: {ro}, {where}", client(h), args, h)
                if r is None:
                    continue
                kind, v, st = r
                want = ("map", "rbd/img@backy-new") + (("--read-only",) if ro else ())
                maps = [c for c in st.mon[1] if c[:1] == ("map",)]
                if maps != [want]:
                    ctx.finding("C34.map", E, f"rbd {' '.join(want)} is not what is run: "
                                f"{'; '.join(' '.join(c) for c in maps) or 'nothing'}", f.qual, st.path())
                if kind == "value" and where == "missing":
                    ctx.finding("C34.map", E, f"an image that is not in the list of mappings ({release}) is taken for "
                                f"{(plain(v) or {}).get('device') if isinstance(plain(v), dict) else plain(v)}", f.qual, st.path())
                elif kind == "value":
                    got = plain(v)
                    dev = got.get("device") if isinstance(got, dict) else None
                    if dev != "/dev/rbd4":
                        ctx.finding("C34.map", E, f"the device of another mapping is used ({release}): {dev}", f.qual,
                                    st.path())
                elif where != "missing":
                    ctx.finding("C34.map", E, f"the mapping is not found ({release}): {v}", f.qual, st.path())


def leak(ctx):
    """a mapping nobody learns of is undone"""
    f = ctx.p.try_method("RBDClient", "map")
    if f is None:
        return
    ps = f.params()[1:]
    broken = [{k: v for k, v in MINE.items() if k != "device"}]
    for why, es, fails in (("rbd showmapped fails", [MINE], ("showmapped",)), ("it is not listed", OTHERS, ()),
                           ("its device is not listed", broken, ())):
        h = Heap()
        m = Cluster({"--version": VERSIONS["nautilus"], "showmapped": mappings("nautilus", es)}, fails=fails)
        r = drive(ctx, m, f, f"map, {why}", client(h), {ps[0]: C("rbd/img@backy-new"), **({ps[1]: TRUE} if len(ps) > 1 else {})}, h)
        if r is None:
            continue
        kind, v, st = r
        did = [c[0] for c in st.mon[1] if c]
        if kind == "raises" and "map" in did and "unmap" not in did[did.index("map"):]:
            ctx.finding("C34.leak", "RBDClient.map", f"the image stays mapped if {why}", f.qual, st.path())


class Codes(Monitor):
    """exists(): which exit codes are possible on the path. state: codes"""
    branches = True
    CODES = (1, 2, 5, 13, 22, 110, 125)

    def init(self):
        return None

    def on_throw(self, exc, st, I):
        if st.mon is None and (exc[1].endswith("CalledProcessError") or not exc[2]):
            st.mon = self.CODES

    def event(self, ev, st, I):
        if ev.kind == "fact" and st.mon is not None:
            a, v = ev.args[0], cval(ev.args[1])
            if a[0] == "cmp" and a[3][0] == "c" and a[2][0] == "attr" and a[2][2] == "returncode":
                k = a[3][2]
                try:
                    ok = {"==": lambda x: x == k, "!=": lambda x: x != k, "<": lambda x: x < k, ">": lambda x: x > k,
                          "<=": lambda x: x <= k, ">=": lambda x: x >= k, "in": lambda x: x in k,
                          "not in": lambda x: x not in k}[a[1]]
                    st.mon = tuple(x for x in st.mon if ok(x) == v)
                except (KeyError, TypeError):
                    pass


def exists(ctx):
    f = ctx.p.try_method("RBDClient", "exists")
    if f is None:
        return
    E = "RBDClient.exists"
    I, out, exc = ctx.run(f, Codes())
    ctx.saw("decided", "exists")
    raised = set()
    for v, st in out:
        if st.mon is None:
            if is_c(v) and not v[2]:
                ctx.finding("C34.exists", E, "an existing image is said not to exist", f.qual, st.path())
            continue
        bad = [x for x in st.mon if x != 2]
        if is_c(v) and v[2]:
            ctx.finding("C34.exists", E, "a failed rbd info is taken for an existing image", f.qual, st.path())
        elif bad:
            ctx.finding("C34.exists", E, f"rbd info failing with exit code {bad[0]} is taken for an image that does "
                        "not exist", f.qual, st.path())
    for e, st in exc:
        if e[1].endswith("CalledProcessError") and st.mon is not None:
            raised |= set(st.mon)
    if 2 in raised:
        ctx.finding("C34.exists", E, "fails for an image that does not exist (exit code 2)", f.qual, ())


CMDS = (("snap_create", "rbd/img@s", ("snap", "create", "rbd/img@s")),
        ("snap_rm", "rbd/img@s", ("snap", "rm", "rbd/img@s")), ("unmap", "/dev/rbd4", ("unmap", "/dev/rbd4")),
        ("snap_ls", "rbd/img", ("snap", "ls", "rbd/img")), ("exists", "rbd/img@s", ("info", "rbd/img@s")))
SYN = {"add": "create", "list": "ls", "remove": "rm", "device": None}


def commands(ctx):
    for n, arg, want in CMDS:
        f = ctx.p.try_method("RBDClient", n)
        if f is None:
            continue
        h = Heap()
        snaps = [{"id": 4, "name": "backy-a", "size": 1}, {"id": 5, "name": "other", "size": 1}]
        m = Cluster({"snap ls": snaps, "info": {"name": "img"}})
        r = drive(ctx, m, f, n, client(h), {f.params()[1]: C(arg)}, h)
        if r is None:
            continue
        kind, v, st = r
        got = [tuple(SYN.get(x, x) for x in c) for c in st.mon[1]]
        if got != [want]:
            ctx.finding("C34.commands", f"RBDClient.{n}", f"rbd {' '.join(want)} is not what is run: "
                        f"{'; '.join(' '.join(str(x) for x in c) for c in got) or 'nothing'}", f.qual, st.path())
        elif kind == "raises":
            ctx.finding("C34.commands", f"RBDClient.{n}", f"the answer of rbd is not understood: {v}", f.qual, st.path())
        elif n == "snap_ls" and v is not None:
            p = plain(v)
            if not (isinstance(p, list) and [isinstance(x, dict) and x.get("name") for x in p] == ["backy-a", "other"]):
                ctx.finding("C34.commands", "RBDClient.snap_ls", "the snapshots listed by rbd are not those returned",
                            f.qual, st.path())
        elif n == "exists" and v is not None and not plain(v):
            ctx.finding("C34.exists", "RBDClient.exists", "an existing image is said not to exist", f.qual, st.path())


class Streams(Monitor):
    def __init__(self):
        self.cmds = []

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name == "proc.spawn" and ev.args:
            self.cmds.append((expand(ev.args[0], st), ev, st))


def streams(ctx):
    for n, args, want, opts in (("export_diff", ("rbd/img@backy-new", "backy-old"), ("export-diff", "rbd/img@backy-new", "-"),
                                 {"--from-snap": "backy-old"}),
                                ("export", ("image",), ("export", "image", "-"), {})):
        f = ctx.p.try_method("RBDClient", n)
        if f is None:
            continue
        m = Streams()
        m.branches = True
        ps = f.params()[1:]
        ctx.run(f, m, args={p: C(a) for p, a in zip(ps, args)})
        for ws, ev, st in m.cmds:
            ws = [w[2] if is_c(w) else None for w in ws] if isinstance(ws, (list, tuple)) and not (
                len(ws) and ws[0] == "tuple") else None
            if ws is None or None in ws[1:]:
                ctx.saw("undecided", f"{n}: command")
                continue
            ctx.saw("decided", f"{n}: command")
            if "--whole-object" in ws and not any(v is True and "whole_object" in show(a).lower() or v and a[0] == "cmp"
                                                  and C("--whole-object") in a for a, v in st.facts.items()):
                ctx.finding("C34.commands", f"RBDClient.{n}", "--whole-object is used although rbd may not know it",
                            ev.loc(), st.path())
            pos, o, it = [], {}, iter(ws[1:])
            for w in it:
                if w.startswith("--from-snap="):
                    o["--from-snap"] = w.partition("=")[2]
                elif w == "--from-snap":
                    o[w] = next(it, None)
                elif w.startswith("--path=") or w.startswith("--whole-object") or w == "--no-progress":
                    pass
                elif w.startswith("--"):
                    o[w] = True
                else:
                    pos.append(w)
            if tuple(pos) != want or o != opts:
                ctx.finding("C34.commands", f"RBDClient.{n}", f"rbd {' '.join(str(w) for w in ws[1:])} does not give the "
                            + ("changes from the old snapshot to the new one" if opts else "content of the image"),
                            ev.loc(), st.path())


def snapshot(ctx):
    f = ctx.p.try_method("CephRBD", "create_snapshot")
    if f is None:
        return
    E = "CephRBD.create_snapshot"
    name = "backy-new"
    for vm, token in (("vm1", "tok"), (None, "tok"), ("vm1", None), (None, None)):
        for at in ((None, 0, 5, 30) if vm and token else (None,)):
            h = Heap()
            kv = h.dict({"snapshot/1": C(json.dumps({"vm": "vm2", "snapshot": "backy-x"})), "other/1": C("x")})
            consul = h.of("consul", kv=kv)
            rbd = client(h)

            def ls(st, at=at):
                l = [{"name": "backy-old"}, {"name": "backy-new2"}]
                local = any(c[:2] == ("snap", "create") for c in st.mon[1])
                if at is not None and st.mon[0] >= at or local:
                    l.append({"name": name})
                return l
            m = Cluster({"snap ls": ls}, at)
            m.consul = consul
            requests = []
            m.event = lambda ev, st, I: (m.done(st, ("request", ev.args[1], value(ev.args[2], st)))
                                         if ev.kind == "setitem" and ev.args[0] == kv else None)
            src = h.of("backy.rbd.CephRBD", pool=C("rbd"), image=C("img"), vm=C(vm), consul_acl_token=C(token), rbd=rbd,
                       log=("sym", "log", None), always_full=FALSE)
            case = f"snapshot, VM {vm}, token {token}, appears after {at}"
            r = drive(ctx, m, f, case, src, {f.params()[1]: C(name)}, h)
            if r is None:
                continue
            kind, v, st = r
            did = st.mon[1]
            made = [c for c in did if c[:2] == ("snap", "create")]
            asked = [c for c in did if c[0] == "request"]
            if kind == "raises":
                ctx.finding("C34.snapshot", E, f"fails ({v}) when {case}", f.qual, st.path())
                continue
            if made and made != [("snap", "create", "rbd/img@" + name)]:
                ctx.finding("C34.snapshot", E, f"rbd {' '.join(made[0])} does not create the snapshot asked for", f.qual,
                            st.path())
            if not (vm and token):
                if not made:
                    ctx.finding("C34.snapshot", E, "no snapshot is created", f.qual, st.path())
                if asked:
                    ctx.finding("C34.snapshot", E, "a snapshot of the VM is requested without the data needed for it",
                                f.qual, st.path())
                continue
            if not asked:
                ctx.finding("C34.request", E, "the VM is not asked for a consistent snapshot", f.qual, st.path())
            for c in did:
                if c[0] == "consul" and is_c(c[1]) and c[1] != C(token):
                    ctx.finding("C34.request", E, f"Consul is contacted with {show(c[1])} instead of the token",
                                f.qual, st.path())
            for c in asked:
                p = plain(c[2])
                p = json.loads(p) if isinstance(p, str) else p
                if p is not None and p != {"vm": vm, "snapshot": name}:
                    ctx.finding("C34.request", E, f"the request is {p}", f.qual, st.path())
                if is_str(c[1]) and not c[1][2].startswith("snapshot/"):
                    ctx.finding("C34.request", E, f"the request is stored as {c[1][2]}", f.qual, st.path())
            if at is None and not made:
                ctx.finding("C34.snapshot", E, "returns although the VM made no snapshot", f.qual, st.path())
            if at is not None and made:
                ctx.finding("C34.request", E, f"a snapshot the VM made after {at} seconds is not waited for", f.qual,
                            st.path())
            if at is not None and st.mon[0] < at:
                ctx.finding("C34.snapshot", E, "returns before the snapshot exists", f.qual, st.path())


class NotReady(Monitor):
    branches = True


def ready(ctx):
    f = ctx.p.try_method("CephRBD", "ready")
    if f is None:
        return

    for what, ans in (("an existing", TRUE), ("a missing", FALSE), ("an unknown", None)):
        def sub(I, fv, args, kw, st, node, fr):
            if ans is None:
                I.throw(("exc", "subprocess.CalledProcessError", True), st)
                return []
            return [(ans, st)]
        I, out, exc = ctx.run(f, NotReady(), subst={"backy.rbd.rbd.RBDClient.exists": sub})
        ctx.saw("decided", f"ready, {what} image")
        for v, st in out:
            if is_c(v) and bool(v[2]) != (ans == TRUE):
                ctx.finding("C34.ready", "CephRBD.ready", f"{what} image is said "
                            f"{'' if v[2] else 'not '}to be ready", f.qual, st.path())
        if any(e[0] == "exc" and e[2] and e[1].endswith("CalledProcessError") for e, st in exc):
            ctx.finding("C34.ready", "CephRBD.ready", "fails if the image cannot be looked at", f.qual, ())


def check(ctx):
    ctx.rule("C34.map", "map() maps what it is asked to, read-only if asked, and returns the device of exactly that "
             "pool, image and snapshot, in the list formats of jewel, luminous and nautilus; an image that is not "
             "listed is an error")
    ctx.rule("C34.exists", "only exit code 2 of rbd info means that an image does not exist")
    ctx.rule("C34.ready", "a source is ready iff its image exists")
    ctx.rule("C34.commands", "every method runs the one rbd command it stands for")
    ctx.rule("C34.snapshot", "when create_snapshot() returns there is a snapshot of the image with this name")
    ctx.rule("C34.request", "with a VM and a token the snapshot is requested from the VM and waited for")
    ctx.rule("C34.leak", "an image whose device map() cannot tell is unmapped again")
    mapping(ctx)
    leak(ctx)
    exists(ctx)
    commands(ctx)
    streams(ctx)
    snapshot(ctx)
    ready(ctx)
    ctx.need("decided", 10)
