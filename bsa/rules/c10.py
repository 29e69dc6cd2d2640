"""A backup counts as complete only if it was compared with the source."""
import ast

from ..interp import Budget, State
from .util import *
from .c06 import FILE

BACKUP_OPAQUE = {"RBDClient.image_reader", "File.seek", "File.read", "File.close", "File.flush",
                 "File.write", "File.truncate", "CephRBD.verify", "CephRBD.full", "CephRBD.diff",
                 "CephRBD.get_parent", "CephRBD.create_snapshot", "CephRBD._delete_old_snapshots",
                 "RBDSource.verify", "File.__init__", "Revision.write_info", "CephRBD.ready"}


def rev_of(t):
    return t[0] == "sym" and t[1] == "revision"


class Flow(Monitor):
    """state: (complete, discarded, backend failure, distrusted)"""

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.result = set()

    def init(self):
        return (False, False, None, False, ())

    def event(self, ev, st, I):
        done, gone, failed, dis, files = st.mon
        n = ev.name
        if ev.kind == "handler" and "BackendException" in n + "".join(show(a) for a in ev.args):
            failed = ev.loc()
        elif ev.kind == "new" and n.endswith(".File") and len(ev.args) > 1:
            files = tuple(x for x in files if x[0] != ev.args[0]) + ((ev.args[0], ev.args[1]),)
        elif ev.kind == "call" and n.endswith("CephRBD.verify"):
            self.result.add(ev.result)
            self.compare(ev, st, dict(files))
        elif ev.kind == "enter" and n.endswith("Repository.distrust"):
            dis = True
            self.distrust(ev, st)
        elif ev.kind == "enter" and n.endswith("Revision.remove") and rev_of(ev.args[0]):
            gone = True
        elif ev.kind == "setitem" and ev.args[1] == C("duration") and ev.args[0][0] == "attr" \
                and rev_of(ev.args[0][1]):
            done = True
            self.ctx.saw("completion", f"{self.entry}: {ev.where()}")
            if not any(st.facts.get(r) for r in self.result):
                self.ctx.finding("C10.verified", self.entry,
                                 "the revision is marked complete on a path on which the "
                                 "comparison with the source did not succeed", ev.loc(), st.path())
        st.mon = (done, gone, failed, dis, files)

    def compare(self, ev, st, files):
        self.ctx.saw("comparison with the source", f"{self.entry}: {ev.where()}")
        f = next((a for a in ev.args if a in files), None)
        if f is not None:
            p = files[f]
            if not any(s[0] == "attr" and s[2] == "uuid" and rev_of(s[1]) for s in subterms(p)):
                self.ctx.finding("C10.same", self.entry,
                                 f"the comparison reads {show(p)}, not the new revision",
                                 ev.loc(), st.path())
        if len(ev.args) < 3 and not ev.kw:
            self.ctx.finding("C10.report", self.entry,
                             "mismatches found are not reported (no report callback)",
                             ev.loc(), st.path())

    def distrust(self, ev, st):
        arg = ev.args[1] if len(ev.args) > 1 else (ev.kw or {}).get("revs", NONE)
        for s in subterms(arg):
            if s[0] == "app" and s[1].endswith("find_revisions") and len(s[2]) > 1 and is_str(s[2][1]):
                if s[2][1][2] not in ("local", "server:"):
                    self.ctx.finding("C10.distrust", self.entry,
                                     f"after a failure of the chunk store only {s[2][1][2]} "
                                     "revisions are distrusted, not all local ones",
                                     ev.loc(), st.path())
                return
        items = st.heap.get((arg, "#c"))
        if items is not None and all(i[0] == "v" for i in items):
            self.ctx.finding("C10.distrust", self.entry, "after a failure of the chunk store only "
                             f"{', '.join(show(i[1]) for i in items) or 'nothing'} is distrusted",
                             ev.loc(), st.path())
        root, conds, partial = root_of(arg)
        if is_history(root):
            bad = [a for a, v in conds.items() if not (a[0] == "attr" and a[2] == "server" and not v)]
            if bad or partial:
                self.ctx.finding("C10.distrust", self.entry,
                                 "after a failure of the chunk store only some of the local "
                                 "revisions are distrusted", ev.loc(), st.path())

    def done(self, out):
        for v, st in out:
            done, gone, failed, dis, _ = st.mon
            self.ctx.saw("exit", f"{self.entry}: {show(v)[:60]}")
            true = v == TRUE or st.facts.get(v) is True
            false = v in (FALSE, NONE) or st.facts.get(v) is False
            if not done and not gone:
                self.ctx.finding("C10.discard", self.entry,
                                 "the backup ends normally, neither completing nor removing the "
                                 "revision", "", st.path())
            if not done and true:
                self.ctx.finding("C10.result", self.entry,
                                 "success is returned although the revision was not completed",
                                 "", st.path())
            if not (true or false) and not any(
                    s in self.result or rev_of(s) for s in subterms(v)):
                self.ctx.finding("C10.result", self.entry,
                                 f"what is returned does not tell whether the revision was "
                                 f"completed: {show(v)}", "", st.path())
            if done and false:
                self.ctx.finding("C10.result", self.entry,
                                 "failure is returned although the revision was completed",
                                 "", st.path())
            if failed and not dis:
                self.ctx.finding("C10.distrust", self.entry,
                                 "after a failure of the chunk store during the backup the "
                                 "existing revisions are still trusted", failed, st.path())


class Equal(Monitor):
    """state: (mismatch seen, reported, ((file, position), ...))"""
    branches = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return (None, False, ())

    def side(self, t):
        s, g = False, False
        for x in subterms(t):
            if x[0] == "app" and x[1].endswith("image_reader"):
                s = True
            if x[0] == "sym" and x[1] == "target":
                g = True
        return "source" if s and not g else "target" if g and not s else None

    @staticmethod
    def read_from(t):
        while t[0] == "app" and t[1] not in (".read", "file.read") and t[2] and (
                t[1].startswith("hashlib") or t[1] in (".hexdigest", ".digest", "bytes", "call")):
            t = t[2][0]
        if t[0] == "app" and (t[1].endswith("File.read") or t[1] in (".read", "file.read")):
            return t[2][0]
        return None

    def event(self, ev, st, I):
        bad, rep, pos = st.mon
        if ev.kind == "fact":
            a, v = ev.args[0], cval(ev.args[1])
            if a[0] == "cmp" and a[1] in ("==", "is", "!=") and self.read_from(a[2]) \
                    and self.read_from(a[3]):
                fa, fb = self.read_from(a[2]), self.read_from(a[3])
                self.ctx.saw("content compared", f"{self.entry}: {ev.loc()}")
                if {self.side(fa), self.side(fb)} != {"source", "target"} and \
                        None not in (self.side(fa), self.side(fb)):
                    self.ctx.finding("C10.same", self.entry, "the backup is compared with itself",
                                     ev.loc(), st.path())
                d = dict(pos)
                if d.get(fa) != d.get(fb):
                    self.ctx.finding("C10.position", self.entry,
                                     "content from different positions is compared: "
                                     f"{show(d.get(fa, NONE))} and {show(d.get(fb, NONE))}",
                                     ev.loc(), st.path())
                if v != (a[1] != "!="):
                    bad = ev.loc()
                    rep = False
        elif ev.kind == "call" and (ev.name.endswith(".seek") and len(ev.args) > 1):
            d = dict(pos)
            d[ev.args[0]] = ev.args[1:3]
            pos = tuple(sorted(d.items(), key=repr))
        elif ev.kind == "call" and ev.name.endswith(".read") and ev.args:
            pos = tuple((f, p if f != ev.args[0] or f not in dict(pos) else ("read", p))
                        for f, p in pos)
        elif ev.kind == "call" and ev.name == "call" and ev.args[0][0] == "sym" \
                or ev.kind == "enter" and ev.name.endswith("add_report"):
            rep = True
        elif ev.kind == "call" and ev.name.endswith("image_reader"):
            if not any(s[0] == "attr" and s[2] == "uuid" for a in ev.args for s in subterms(a)):
                self.ctx.finding("C10.same", self.entry,
                                 "the image compared with is not the snapshot the backup was made "
                                 f"from: {', '.join(show(a) for a in ev.args[1:])}",
                                 ev.loc(), st.path())
        st.mon = (bad, rep, pos)

    def done(self, out):
        for v, st in out:
            bad, rep, pos = st.mon
            self.ctx.saw("exit", f"{self.entry}: {show(v)[:60]}")
            if bad and (v == TRUE or st.facts.get(v) is True):
                self.ctx.finding("C10.equal", self.entry,
                                 f"success is returned although a difference was found ({bad})",
                                 "", st.path())
            if bad and not rep:
                self.ctx.finding("C10.report", self.entry,
                                 f"a difference found ({bad}) is not reported", "", st.path())


def check(ctx):
    ctx.rule("C10.verified", "a revision is marked complete only if comparing it with the source "
             "succeeded")
    ctx.rule("C10.same", "the new revision is compared with the snapshot it was made from")
    ctx.rule("C10.position", "content is compared at the same position")
    ctx.rule("C10.equal", "the comparison fails once a difference was found")
    ctx.rule("C10.report", "differences are reported")
    ctx.rule("C10.discard", "a backup that is not completed removes its revision")
    ctx.rule("C10.result", "success is returned exactly if the revision was completed")
    ctx.rule("C10.distrust", "a failure of the chunk store makes all local revisions distrusted")
    ctx.rule("C10.sample", "every whole block of the image can be among those compared; at least one is, and one in "
             "two hundred of many")
    sampled(ctx)
    e = "RBDSource.backup"
    m = Flow(ctx, e)
    I, out, exc = ctx.run(e, m, opaque=BACKUP_OPAQUE)
    m.done(out)
    e = "CephRBD.verify"
    m = Equal(ctx, e)
    I, out, exc = ctx.run(e, m, opaque={"RBDClient.image_reader"} | FILE)
    m.done(out)
    if not ctx.sites.get("content compared"):
        ctx.finding("C10.equal", e, "nothing read from the backup is ever compared with the source")
    if not ctx.sites.get("comparison with the source"):
        ctx.finding("C10.verified", "RBDSource.backup", "the backup is never compared with the source")
    ctx.need("completion", 1)
    ctx.need("exit", 2)


class Sample(Monitor):
    """Which blocks can be chosen: abstract files of a known size"""
    exact = True

    def __init__(self, size):
        self.size = size
        self.chosen = []
        self.ext = {("file", "tell"): lambda I, A, kw, st: C(size), ("file", "seek"): self.seek,
                    ("file", "fileno"): lambda I, A, kw, st: C(7), "random.sample": self.pick,
                    "random.choices": self.pick, "random.choice": self.one, "random.randrange": self.randrange,
                    "int": _int, "os.fstat": None}
        del self.ext["os.fstat"]

    def init(self):
        return ()

    def seek(self, I, A, kw, st):
        if len(A) == 2 and is_c(A[1]):
            st.mon = st.mon + (A[1][2],)
        return NONE

    def population(self, I, t, st):
        if t[0] == "app" and t[1] == "range" or t[0] == "range":
            a = t[2] if t[0] == "app" else t[1]
            if all(is_c(x) and isinstance(x[2], int) for x in a):
                return list(range(*[x[2] for x in a]))
        x = I.exact_items(t, st)
        if x is not None and all(is_c(y) and isinstance(y[2], int) for y in x):
            return [y[2] for y in x]
        return None

    def pick(self, I, A, kw, st):
        p = self.population(I, A[0], st) if A else None
        k = kw.get("k", A[1] if len(A) > 1 else C(1))
        if p is None or not is_c(k):
            return None
        self.chosen.append((tuple(p), k[2]))
        st = st.copy()
        out = []
        for x in sorted({p[0], p[-1]} if p else ()):
            s = st.copy()
            o = ("obj", -70000 - x, "list")
            s.heap[(o, "#c")] = (("v", C(x)),)
            out.append((o, s))
        return out

    def one(self, I, A, kw, st):
        p = self.population(I, A[0], st) if A else None
        if p is None:
            return None
        self.chosen.append((tuple(p), 1))
        return [(C(x), st.copy()) for x in sorted({p[0], p[-1]})]

    def randrange(self, I, A, kw, st):
        if not all(is_c(x) and isinstance(x[2], int) for x in A):
            return None
        return self.one(I, [("tuple", tuple(C(x) for x in range(*[a[2] for a in A])))], {}, st)


def _int(I, A, kw, st):
    return C(int(A[0][2])) if len(A) == 1 and is_c(A[0]) and isinstance(A[0][2], (int, float)) else None


def sampled(ctx):
    """every whole block can be among those compared, at least one is"""
    f = next((f for f in ctx.p.funcs if f.qual == "backy.utils.files_are_roughly_equal"), None)
    if f is None:
        return
    MiB4 = 4 * 2 ** 20
    for size in (MiB4, 3 * MiB4, 7 * MiB4 + 512, 300, 350 * MiB4):
        m = Sample(size)
        a, b = ("obj", -1, "file"), ("obj", -2, "file")
        ps = f.params()
        args = {ps[0]: a, ps[1]: b}
        ds = f.node.args.defaults
        for n, d in zip(ps[len(ps) - len(ds):], ds):
            try:
                args.setdefault(n, C(eval(compile(ast.Expression(d), "", "eval"),
                                          {"__builtins__": {}, "CHUNK_SIZE": MiB4})))
            except Exception:
                pass
            if n in args and callable(args[n][-1]):
                del args[n]
        try:
            I, out, exc = ctx.run(f, m, st=State(heap={}, mon=()), args=args, lookup=False,
                                  scan=False, max_steps=20000)
        except Budget:
            ctx.saw("undecided", f"sample of {size} bytes")
            continue
        if not m.chosen:
            ctx.saw("undecided", f"sample of {size} bytes")
            continue
        ctx.saw("decided", f"sample of {size} bytes")
        can, k = {x for p, _ in m.chosen for x in p}, max(k for _, k in m.chosen)
        want = set(range(max(size // MiB4, 1)))
        if can & want != want and not can == {x * MiB4 for x in want}:
            ctx.finding("C10.sample", "files_are_roughly_equal", f"block {min(want - can)} of an image of {size} bytes is never compared",
                        f.qual, ())
        if k < 1 or k < len(want) * 0.005:
            ctx.finding("C10.sample", "files_are_roughly_equal", f"{k} of {len(want)} blocks are compared", f.qual, ())
        if k > len(can) :
            ctx.finding("C10.sample", "files_are_roughly_equal", f"fails for an image of {size} bytes", f.qual, ())
