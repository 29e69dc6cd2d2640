"""Garbage collection only deletes data no revision refers to."""
import fnmatch

from ..interp import Budget
from .util import *
from .c31 import Heap


def is_chunk(p):
    return endswith(p, ".chunk.lzo")


def server_atom(a):
    return a[0] == "attr" and a[2] == "server"


class Mon(Locks):
    """user state: (scanned while locked, pending failure, swallowed failure,
    chunks removed but still considered stored)."""

    def __init__(self, ctx, entry, what, local):
        self.ctx, self.entry, self.what, self.local = ctx, entry, what, local
        self.files = {}       # File object -> path
        self.contrib = {}     # set object -> {elem: [facts]}
        self.used = set()     # the sets unlinks rely on
        self.events = []

    def init2(self):
        return (False, None, None)

    def on_throw(self, exc, st, I):
        self.refused(st, I)
        h, (sc, _, sw) = st.mon
        last = I.last_event
        gone = last is not None and last.name == "fs.unlink"
        st.mon = (h, (sc, None if gone else exc[1], sw))

    def effect(self, ev, st, I):
        h, (sc, fail, sw) = st.mon
        if ev.kind == "handler":
            caught = show(ev.args[0]) if ev.args else ""
            # (a missing file of references refers to nothing)
            if fail and not any(x in caught + ev.name for x in
                                ("FileNotFoundError", "BlockingIOError")):
                sw = sw or ev.loc()
            st.mon = (h, (sc, None, sw))
            return
        if ev.kind == "new" and ev.name.endswith(".File") and len(ev.args) > 1:
            self.files[ev.args[0]] = ev.args[1]
        if ev.kind == "mutate" and ev.name in ("update", "add", "|=", "__ior__", "iadd"):
            for a in ev.args[1:]:
                self.add(ev.args[0], a, st)
        if ev.kind == "call" and ev.name.endswith("Repository.scan"):
            sc = self.held(st).get(".purge") == "EX"
            st.mon = (h, (sc, fail, sw))
        if ev.kind == "call" and ev.name == "fs.unlink":
            self.unlink(ev, st, sc, sw)

    def add(self, cont, val, st):
        for el in self.members(val):
            if is_history(root_of(el[1])[0]):
                self.contrib.setdefault(cont, {}).setdefault(el, []).append(dict(st.facts))

    def comp(self, cont, t):
        d = self.contrib.setdefault(cont, {})
        for s in outer(t):
            if s[0] == "comp":
                for a in s[2]:
                    for el in self.members(a[1]):
                        d.setdefault(el, []).append(dict(a[0]))
            elif s[0] == "obj" and s is not t and s != cont:
                for el, fs in self.contrib.get(s, {}).items():
                    d.setdefault(el, []).extend(fs)

    def members(self, val):
        """Revisions whose data val stands for."""
        out = set()
        for s in subterms(val):
            if s[0] == "obj" and s in self.files:
                out |= elems(self.files[s])
        return out | elems(val)

    def unlink(self, ev, st, sc, sw):
        p = ev.args[0]
        if last_is(p, ".purge_pending"):
            return
        if self.what == "chunk" and not is_chunk(p):
            return
        self.ctx.saw("removal", f"{self.entry}: {ev.where()}")
        if not sc:
            self.ctx.finding("C05.scan", self.entry,
                             "data is removed on the strength of revisions that were not read "
                             "after the exclusive purge lock was taken: a backup that finished "
                             "before loses its chunks", ev.loc(), st.path())
        if sw:
            self.ctx.finding("C05.swallowed", self.entry,
                             f"an error while determining what is in use is ignored (handler at "
                             f"{sw}) and unused data is removed nevertheless", ev.loc(), st.path())
        good = None
        for a, v in st.facts.items():
            if a[0] == "cmp" and a[1] == "in" and not v and mentions(p, a[2]):
                good = a[3]
            elif a[0] == "cmp" and a[1] == "notin" and v and mentions(p, a[2]):
                good = a[3]
        for el in elems(p):
            for s in subterms(el[1]):
                if s[0] == "bin" and s[1] == "-":
                    good = s[3]
                elif s[0] == "app" and s[1] in (".difference", "difference") and len(s[2]) > 1:
                    good = s[2][1]
                elif s[0] == "comp":
                    for f in s[2]:
                        for a, v in f[0]:
                            if a[0] == "cmp" and a[1] == "in" and not v:
                                good = a[3]
        if good is None:
            self.ctx.finding("C05.unused", self.entry,
                             f"{show(p)} is removed on a path on which it is not known to be "
                             "unused", ev.loc(), st.path())
        else:
            self.used.add(good)
            for i in st.heap.get((good, "#c"), ()):
                self.comp(good, i[1])
            self.ctx.saw("removal of unused", f"{self.entry}: not in {show(good)}")

    def covered(self):
        """The sets that decide what is removed hold what every revision refers to."""
        for u in self.used:
            con = dict(self.contrib.get(u, {}))
            if u[0] != "obj":
                self.comp(u, u)
                con = dict(self.contrib[u])
            con = {el: f for el, f in con.items() if is_history(root_of(el[1])[0])}
            if not con:
                self.ctx.finding("C05.coverage", self.entry,
                                 f"nothing read from the revisions is in {show(u)}, the set "
                                 "that decides what is still in use")
                continue
            whole = False
            why = []
            for el, fs in con.items():
                root, conds, partial = root_of(el[1])
                common = dict(conds)
                inter = None
                for f in fs:
                    g = {a: v for a, v in f.items() if mentions(a, el) or any(
                        is_history(root_of(e[1])[0]) for e in elems(a))}
                    inter = g if inter is None else {a: v for a, v in inter.items()
                                                     if g.get(a) == v}
                common.update(inter or {})
                bad = [a for a, v in common.items()
                       if not (self.local and server_atom(a) and not v)
                       and not (a[0] == "attr" and a[2] in ("closed",))]
                if partial:
                    why.append(f"only a {partial} of the revisions is considered")
                if bad:
                    why.append("only revisions with " + " and ".join(
                        ("" if common[a] else "not ") + show(a) for a in bad) + " are considered")
                if not partial and not bad:
                    whole = True
            if not whole:
                self.ctx.finding("C05.coverage", self.entry,
                                 "what other revisions refer to is removed: " + "; ".join(why))
            else:
                self.ctx.saw("all revisions considered", self.entry)


def check(ctx):
    ctx.rule("C05.scan", "the revisions are read after the exclusive purge lock was taken")
    ctx.rule("C05.coverage", "the set of used data takes in every (local) revision, whatever "
             "its state")
    ctx.rule("C05.unused", "a file is removed only if it is not in that set")
    ctx.rule("C05.swallowed", "no failure while collecting the set is ignored")
    ctx.rule("C05.verify", "verification removes a chunk only after reading it failed")
    for entry, what, local, opq in (
            ("RBDSource.gc", "chunk", True, {"File.__init__"}),
            ("FileSource.gc", "file", False, set())):
        m = Mon(ctx, entry, what, local)
        ctx.run(entry, m, opaque=opq)
        m.covered()
    purging(ctx)
    cleaning(ctx)
    m = VMon(ctx, "RBDSource.verify")
    ctx.run("RBDSource.verify", m, opaque={"Revision.get_parent", "File.__init__",
                                           "RBDSource.open", "Store.purge"})
    ctx.rule("C05.local", "garbage collection looks at images of this server's revisions only")
    ctx.run("RBDSource.gc", Opened(ctx, "C05.local", "RBDSource.gc"), opaque={"RBDSource.open"})
    ctx.need("removal", 1)
    ctx.need("removal of unused", 1)
    ctx.need("all revisions considered", 1)


class Dir(Monitor):
    """a directory with constant content; state: what was removed"""
    exact = True

    def __init__(self, base, files):
        self.base = self.root_path = base
        self.files = files
        self.ext = {"fs.glob": self.glob, "fs.scandir": self.scandir,
                    "fs.exists": lambda I, A, kw, st: self.known(A, st),
                    "fs.isfile": lambda I, A, kw, st: self.known(A, st)}

    def init(self):
        return frozenset()

    def parts(self, p):
        """the parts of a path below the directory, None: another path"""
        out = []
        while p != self.base:
            if p[0] != "join" or not is_str(p[2]):
                return None
            out.insert(0, p[2][2])
            p = p[1]
        return tuple(out)

    def known(self, A, st):
        q = self.parts(A[0])
        return None if q is None else C(any(f[:len(q)] == q for f in self.files if f not in st.mon))

    def found(self, q, pat, st):
        return {q + f[len(q):len(q) + len(pat)] for f in self.files
                if f not in st.mon and f[:len(q)] == q and len(f) >= len(q) + len(pat)
                and all(fnmatch.fnmatchcase(a, b) for a, b in zip(f[len(q):], pat))}

    def listing(self, qs, I, st):
        from ..terms import join
        o = ("obj", ("dir", tuple(sorted(qs))), "list")
        st.heap[(o, "#c")] = tuple(("v", join(self.base, *[C(x) for x in q])) for q in sorted(qs))
        return o

    def glob(self, I, A, kw, st):
        q = self.parts(A[0])
        if q is None or len(A) != 2 or not is_str(A[1]):
            return None
        pat = tuple(A[1][2].split("/"))
        if "**" in pat or I.fs_name.endswith("rglob"):
            pat = tuple(x for x in pat if x != "**")
            return self.listing({x for n in range(3) for x in self.found(q, ("*",) * n + pat, st)}, I, st)
        return self.listing(self.found(q, pat, st), I, st)

    def scandir(self, I, A, kw, st):
        q = self.parts(A[0]) if A else None
        return None if q is None or not I.fs_name.endswith("iterdir") else self.listing(
            self.found(q, ("*",), st), I, st)

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name in ("fs.unlink", "fs.rename", "fs.rmtree"):
            q = self.parts(ev.args[0])
            if q is None:
                st.mon = st.mon | {None}
            else:
                st.mon = st.mon | {f for f in self.files if f[:len(q)] == q}


STORE = [("store",), ("ab", "ab11.chunk.lzo"), ("ab", "ab22.chunk.lzo"), ("ab", "abab.chunk.lzo"),
         ("ab", "tmpab"), ("cd", "cd33.chunk.lzo"), ("cd", "cd44.chunk.lzo"), ("ef", "ef55.chunk.lzo")]


def purging(ctx):
    """Store.purge of a store of a few chunks"""
    f = ctx.p.try_method("Store", "purge")
    if f is None or len(f.params()) != 2:
        return
    ctx.rule("C05.purge", "of a store with constant content the chunks that are not used are removed, "
             "and nothing else")
    base = ("sym", "store-path", None)
    hashes = {x[1].split(".")[0]: x for x in STORE if x[-1].endswith(".lzo")}
    for used in ((), tuple(hashes), ("ab11",), ("ab22", "cd33"), ("abab", "ef55"), ("cd44", "ff00"),
                 ("ab11", "ab22", "abab")):
        case = f"a store of {', '.join(hashes)} of which {', '.join(used) or 'none'} are used"
        m = Dir(base, STORE)
        h = Heap()
        seen = h.seq("set", [C(x) for x in hashes])
        store = h.of(ctx.p.cls("Store").qual, path=base, log=("sym", "log", None), seen=seen)
        args = {f.params()[1]: h.seq("set", [C(x) for x in used])}
        try:
            _, out, exc = ctx.run(f, m, st=h.state(m), self_val=store, lookup=False, scan=False, max_steps=20000,
                                  args=args)
        except Budget:
            ctx.saw("undecided", f"{case}: too many paths")
            continue
        got = {st.mon for _, st in out}
        if len(got) != 1 or None in next(iter(got)):
            ctx.saw("undecided", f"{case}: {len(got)} answers")
            continue
        ctx.saw("decided", case)
        got = next(iter(got)) - {("ab", "tmpab")}
        want = {p for x, p in hashes.items() if x not in used}
        name = lambda s: ", ".join("/".join(p) for p in sorted(s))
        if got - want:
            ctx.finding("C05.purge", "Store.purge", f"{case}: removes {name(got - want)}", f.loc)
        elif want - got:
            ctx.finding("C05.purge", "Store.purge", f"{case}: keeps {name(want - got)}", f.loc)


FILES = [("aaa",), ("aaa.rev",), ("bbb.rev",), ("bbb",), ("ccc",), ("ccc.rev",), (".backup",), (".purge",), (".purge_pending",),
         ("config",), ("backy.log",), ("last.rev",), ("last",), ("quarantine", "x"), ("chunks", "ab", "1.chunk.lzo")]
LINKS = {("last.rev",), ("last",)}


def cleaning(ctx):
    """FileSource.gc of a directory of a few files, with revisions aaa and ccc"""
    f = ctx.p.try_method("FileSource", "gc")
    if f is None:
        return
    ctx.rule("C05.files", "of a directory with constant content garbage collection removes nothing but files of revisions "
             "that do not exist")
    base = ("sym", "repo-path", None)
    m, h, log = Dir(base, FILES), Heap(), ("sym", "log", None)
    link = lambda I, A, kw, st: C(m.parts(A[0]) in LINKS) if A and m.parts(A[0]) is not None else None
    m.ext["fs.islink"] = m.ext["os.path.islink"] = link
    from ..terms import join
    repo = h.of("backy.repository.Repository", path=base, log=log, history=NONE, _lock_fds=h.dict({}), name=C("x"))
    revs = [h.of("backy.revision.Revision", uuid=C(u), repository=repo, server=C(""), log=log,
                 info_filename=join(base, C(u + ".rev"))) for u in ("aaa", "ccc")]
    h.h[repo, "history"] = h.seq("list", revs)
    h.h[repo, "_by_uuid"] = h.dict({"aaa": revs[0], "ccc": revs[1]})
    source = h.of("backy.file.FileSource", repository=repo, filename=("sym", "device", None))
    sub = {}
    for n in ("scan", "connect", "lock", "unlock", "_lock", "_unlock"):
        g = ctx.p.try_method("Repository", n)
        if g is not None:
            sub[g.qual] = lambda I, fv, args, kw, st, node, fr: [(NONE, st)]
    try:
        _, out, exc = ctx.run(f, m, st=h.state(m), self_val=source, lookup=False, scan=False, max_steps=20000, subst=sub)
    except Budget:
        out = []
    got = {st.mon for _, st in out}
    case = f"a repository of {', '.join('/'.join(x) for x in FILES)} with the revisions aaa and ccc"
    if len(got) != 1 or None in next(iter(got)):
        ctx.saw("undecided", f"{case}: {len(got)} answers")
        return
    ctx.saw("decided", case)
    bad = [x for x in next(iter(got)) if x[0] not in ("bbb.rev", "bbb", ".purge_pending") and x not in LINKS]
    if bad:
        ctx.finding("C05.files", "FileSource.gc", f"{case}: removes {', '.join('/'.join(x) for x in sorted(bad))}", f.loc)


class VMon(Monitor):
    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return ("", ())

    def event(self, ev, st, I):
        if ev.kind == "handler":
            st.mon = ("failed", st.mon[1])
        elif ev.kind == "new" and ev.name.endswith(".Chunk"):
            st.mon = ("", tuple(ev.args[1:]))
        elif ev.kind == "call" and ev.name.endswith("Store.purge"):
            self.ctx.finding("C05.verify", self.entry,
                             "removes unused chunks without excluding backups, whose chunks "
                             "nothing refers to yet", ev.loc(), st.path())
        elif ev.kind == "call" and ev.name == "fs.unlink" and is_chunk(ev.args[0]):
            self.ctx.saw("removal of damaged chunk", f"{self.entry}: {ev.where()}")
            other = {el for el in elems(ev.args[0])} - {
                el for a in st.mon[1] for el in elems(a)}
            if st.mon[0] == "failed" and st.mon[1] and other:
                self.ctx.finding("C05.verify", self.entry,
                                 f"{show(ev.args[0])} is removed, but it is another chunk that "
                                 "could not be read", ev.loc(), st.path())
            if st.mon[0] != "failed":
                self.ctx.finding("C05.verify", self.entry,
                                 "a chunk is removed although reading it did not fail",
                                 ev.loc(), st.path())
