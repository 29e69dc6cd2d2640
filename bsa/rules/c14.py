"""Bulk copies (restore, full backup): everything read is written, until the end."""
from .c31 import Heap
from .reload import World, drive
from .util import *

LAST = ("read", "write", "seek", "tell", "truncate", "flush")


def op(ev):
    return ev.name.split(".")[-1]


class Pump(Monitor):
    """Monitor state: (chunk read and not yet written, its source ended, source
    position known to be the start (None: nothing read yet), target trimmed,
    in sequence, swallowed failure, files open for writing, copied how)"""
    branches = True

    def __init__(self, ctx, entry, is_source, is_target=None):
        self.ctx, self.entry = ctx, entry
        self.is_source, self.target = is_source, is_target
        self.pumped = False

    def init(self):
        return dict_((("chunk", None), ("ended", False), ("at", 0), ("fail", None),
                      ("open", ()), ("lost", None), ("tells", ()), ("done", None), ("eof", None)))

    def bad(self, rule, msg, ev, st):
        self.ctx.finding("C14." + rule, self.entry, msg, ev.loc() if ev else "", st.path())

    def on_throw(self, exc, st, I):
        e = I.last_event
        if e is not None and e.kind == "call" and op(e) in ("read", "write", "copy", "copyfile"):
            st.mon = put(st.mon, fail=e.loc())
        if e is not None and e.kind == "call" and op(e) == "truncate":
            st.mon = put(st.mon, open=tuple((f, None if f == e.args[0] else m)
                                            for f, m in get(st.mon, "open")))

    def event(self, ev, st, I):
        m = dict(st.mon)
        if ev.kind == "fact":
            a, v = ev.args[0], cval(ev.args[1])
            c = m["chunk"]
            if c is not None:
                if a == c and v is False or a[0] == "cmp" and a[2] == c and \
                        a[3] == C(b"") and (a[1] == "==") == v or \
                        a[0] == "cmp" and a[2] == ("app", "len", (c,), (), 0) and \
                        a[3] == C(0) and (a[1] in ("==", "<=")) == v:
                    m.update(ended=True, chunk=None)
                elif a[0] == "cmp" and a[1] == "==" and v and c in a[2:4]:
                    # the target already contains it
                    o = a[3] if a[2] == c else a[2]
                    if self.is_read(o) and not self.is_source(o[2][0], st):
                        m.update(chunk=None, at="?")
            st.mon = dict_(m.items())
            return
        if ev.kind != "call":
            return
        n = op(ev)
        if n == "open" and ev.name.startswith("fs.") and is_write_mode(ev.args[1]):
            mode = cval(ev.args[1])
            m["open"] += ((ev.result, "cut" if isinstance(mode, str) and "w" in mode else "old"),)
        elif n == "fdopen":
            m["open"] += ((ev.result, "cut"),)
        elif n in ("copy", "copyfile", "copy2") and len(ev.args) >= 2:
            m["done"] = (ev.args[0], ev.args[1])
            m["ended"] = True
            self.ctx.saw("copies", f"{self.entry}: {ev.name}")
        elif not ev.args:
            pass
        elif self.is_source(ev.args[0], st) and n in LAST:
            if n == "read":
                self.pumped = True
                self.ctx.saw("copies", f"{self.entry}: {ev.loc().split(':')[0]} read")
                if m["chunk"] is not None:
                    self.bad("lost", "data read from the source is dropped without being written",
                             ev, st)
                if m["at"] not in (0, "seq", "?"):
                    self.bad("start", "the copy does not start at the beginning of the source",
                             ev, st)
                m.update(chunk=ev.result, at="seq", ended=False)
            elif n == "seek":
                w = ev.args[2] if len(ev.args) > 2 else C(0)
                m["at"] = 0 if ev.args[1] == C(0) and w == C(0) else "end" \
                    if cval(w) == 2 or "SEEK_END" in str(w) else "elsewhere"
            elif n == "tell":
                if m["at"] == "end" or m["ended"] and m["at"] == "seq":
                    m["eof"] = ev.result
        elif n in ("write", "writelines"):
            c = m["chunk"]
            f = st.heap.get((ev.args[0], "#mode"))
            if c is not None and f is not None and isinstance(cval(f), str) and "a" in cval(f):
                self.bad("start", "the data is appended to what the target already contains", ev, st)
            x = ev.args[1] if len(ev.args) > 1 else NONE
            if c is not None and (x == c or mentions(x, c)):
                if x[0] in ("slice", "idx"):
                    self.bad("lost", "only a part of the data read is written", ev, st)
                m["chunk"] = None
        elif n == "fallocate":
            if m["chunk"] is not None and any(
                    a[0] == "cmp" and a[1] == "==" and v and m["chunk"] in a[2:4]
                    for a, v in st.facts.items()):
                m["chunk"] = None
        elif n == "truncate":
            size = ev.args[1] if len(ev.args) > 1 else None
            if size is not None and size != NONE and self.is_tell(size, st) and size != m["eof"]:
                self.bad("size", "the target is cut to a position before the end of the source",
                         ev, st)
            m["open"] = tuple((f, "cut" if f == ev.args[0] else o) for f, o in m["open"])
        elif n in ("close",):
            m["open"] = tuple((f, o) if f != ev.args[0] or o == "old" else (f, "closed")
                              for f, o in m["open"])
        st.mon = dict_(m.items())

    def is_read(self, t):
        return t[0] == "app" and t[1].split(".")[-1] == "read" and bool(t[2])

    def is_tell(self, t, st):
        return t[0] == "app" and t[1].split(".")[-1] == "tell" and bool(t[2]) \
            and self.is_source(t[2][0], st)

    def done(self, out):
        for v, st in out:
            m = dict(st.mon)
            self.ctx.saw("exit", self.entry)
            if m["fail"]:
                self.bad("error", f"ends normally although reading or writing failed ({m['fail']})",
                         None, st)
            if m["chunk"] is not None:
                self.bad("lost", "the last data read from the source is not written", None, st)
            elif not m["ended"] and not self.elsewhere(m, st):
                self.bad("whole", "ends normally before the source is exhausted", None, st)
            for f, o in m["open"]:
                if o == "old" and self.written(f, st, m):
                    self.bad("size", "a longer target keeps its old end", None, st)

    def written(self, f, st, m):
        return f in self.wrote

    wrote = frozenset()

    def elsewhere(self, m, st):
        return False


def dict_(items):
    return tuple(sorted(items))


def put(mon, **kw):
    d = dict(mon)
    d.update(kw)
    return dict_(d.items())


def get(mon, k):
    return dict(mon)[k]


class Restore(Pump):
    """RBDSource.restore: from the file of the revision to the target asked for"""

    def __init__(self, ctx, entry):
        super().__init__(ctx, entry, self.source)
        self.wrote = set()
        self.dups, self.asked = set(), False

    def init(self):
        return put(super().init(), procs=())

    def source(self, t, st):
        p = path_of(t, st)
        return t[0] == "obj" and t[2].endswith(".File") or \
            p[0] == "join" and p[2] == ("attr", ("sym", "revision"), "uuid")

    def event(self, ev, st, I):
        if ev.kind == "new" and ev.name.endswith(".File"):
            p = ev.args[1] if len(ev.args) > 1 else NONE
            self.ctx.saw("sources", f"{self.entry}: {show(p)}")
            if not names_revision(p, "revision"):
                self.bad("place", f"restores from {show(p)} instead of the file of the revision",
                         ev, st)
        if ev.kind == "call":
            n = op(ev)
            if n in ("open",) and ev.name.startswith("fs.") and is_write_mode(ev.args[1]) \
                    and not is_c(basename(ev.args[0])):
                self.target_ok(ev.args[0], ev, st)
            elif n == "fdopen":
                self.dups.add(ev.result)
            elif n in ("write", "truncate") and not self.source(ev.args[0], st):
                self.wrote.add(ev.args[0])
                if n == "write":
                    self.stdout_ok(ev, st)
            elif ev.name == "proc.spawn":
                st.mon = put(st.mon, procs=get(st.mon, "procs") + (ev.result,))
                args = ev.args[0] if ev.args else NONE
                items = [i[1] for i in st.heap.get((args, "#c"), ()) if i[0] == "v"]
                if len(items) >= 3:
                    if not any(names_revision(i, "revision") for i in items):
                        self.bad("place", "the external restore program is not given the file of "
                                 "the revision", ev, st)
                    if not any(is_target(i) for i in items):
                        self.bad("place", "the external restore program is not given the target",
                                 ev, st)
                    self.ctx.saw("copies", f"{self.entry}: external program")
                    self.external_ok(ev, st)
                    st.mon = put(st.mon, done=ev.result)
        elif ev.kind == "fact":
            a, v = ev.args[0], cval(ev.args[1])
            self.asked = self.asked or self.is_dash(a)
            d = get(st.mon, "done")
            if d is not None and any(s[0] == "app" and s[1].split(".")[-1] in (
                    "wait", "returncode", "poll", "communicate") for s in subterms(a)) or \
                    a[0] == "attr" and a[2] == "returncode":
                if self.success(a, v):
                    st.mon = put(st.mon, ended=True)
        super().event(ev, st, I)

    def success(self, a, v):
        """the fact says that the exit status is 0"""
        if a[0] == "cmp":
            return C(0) in a[2:4] and (a[1], v) in (("==", True), ("!=", False))
        return not v

    def stdout_ok(self, ev, st):
        """writing to something that is no file: is that what was asked for?"""
        f = ev.args[0]
        if f[0] == "obj" and f not in self.dups and f[2] != "stdout":
            return
        if self.asked and not any(self.is_dash(a) and v for a, v in st.facts.items()):
            self.bad("place", "the data goes to stdout although another target was asked for",
                     ev, st)

    @staticmethod
    def is_dash(a):
        return a[0] == "cmp" and a[1] in ("==", "in") and any(
            is_target(x) for x in a[2:4]) and any(C("-") == s for s in subterms(a)) or \
            a[0] == "cmp" and a[1] == "in" and is_target(a[2]) and "'-'" in show(a[3])

    def external_ok(self, ev, st):
        """backy-extract writes whole chunks only"""
        auto = any(v and a[0] == "cmp" and a[1] in ("==", "is") and any(
            x[0] == "enum" and x[2] == "AUTO" for x in a[2:4]) for a, v in st.facts.items())
        if auto and not any(s[0] == "attr" and "size" in s[2] for a in st.facts for s in subterms(a)):
            self.bad("size", "the external program is chosen without looking at the size of the "
                     "revision: it writes whole chunks", ev, st)

    def target_ok(self, p, ev, st):
        self.ctx.saw("targets", f"{self.entry}: {show(p)}")
        if not is_target(p):
            self.bad("place", f"writes to {show(p)} instead of the target", ev, st)


def names_revision(p, name):
    return any(s[0] == "attr" and s[2] == "uuid" and s[1][:2] == ("sym", name)
               for s in subterms(p)) or \
        any(s[0] == "attr" and s[1][:2] == ("sym", name) for s in subterms(p))


def is_target(p):
    while p[0] in ("typed", "conv") or p[0] == "app" and p[1].split(".")[-1] in (
            "str", "Path", "fspath", "fsencode") and len(p[2]) == 1:
        p = p[1] if p[0] == "typed" else p[2] if p[0] == "conv" else p[2][0]
    return p[0] == "attr" and p[2] == "target"


class Full(Pump):
    """CephRBD.full: from the snapshot of this revision"""

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name == "proc.spawn" and ev.args:
            items = [i[1] for i in st.heap.get((ev.args[0], "#c"), ()) if i[0] == "v"]
            if len(items) >= 3 and any(i == C("export") for i in items):
                img = [i for i in items if i[0] == "str"]
                self.ctx.saw("sources", f"{self.entry}: {[show(i) for i in img]}")
                if img and not any(
                        any(s[0] == "attr" and s[2] == "uuid" for s in subterms(i)) and
                        any(is_str(s) and s[2].endswith("@backy-") for s in subterms(i))
                        for i in img):
                    self.bad("place", f"exports {show(img[0])}, which is not the snapshot of the "
                             "revision", ev, st)
        super().event(ev, st, I)


class FileCopy(Monitor):
    def __init__(self, ctx, entry, frm, to):
        self.ctx, self.entry, self.frm, self.to = ctx, entry, frm, to

    def init(self):
        return (None, None)

    def on_throw(self, exc, st, I):
        e = I.last_event
        if e is not None and e.kind == "call" and op(e).startswith("copy"):
            st.mon = (None, e.loc())

    def event(self, ev, st, I):
        if ev.kind == "call" and op(ev).startswith("copy") and len(ev.args) >= 2:
            self.ctx.saw("copies", f"{self.entry}: {ev.name}")
            if not self.frm(ev.args[0]):
                self.ctx.finding("C14.place", self.entry, f"copies from {show(ev.args[0])}",
                                 ev.loc(), st.path())
            if not self.to(ev.args[1]):
                self.ctx.finding("C14.place", self.entry, f"copies to {show(ev.args[1])}",
                                 ev.loc(), st.path())
            st.mon = (ev.loc(), None)

    def done(self, out):
        for v, st in out:
            self.ctx.saw("exit", self.entry)
            if st.mon[1]:
                self.ctx.finding("C14.error", self.entry, "ends normally although copying failed "
                                 f"({st.mon[1]})", st.mon[1], st.path())
            elif not st.mon[0]:
                self.ctx.finding("C14.whole", self.entry, "ends normally without having copied "
                                 "anything", "", st.path())


def extract(ctx):
    """restore with the backend chosen automatically, backy-extract being there: what is used for
    an image of this (constant) size"""
    p = ctx.p
    f, fopen = p.try_method("RBDSource", "restore"), p.try_method("RBDSource", "open")
    if f is None or fopen is None or "backy.rbd.RestoreBackend" not in p.class_by_qual:
        return
    MB = 1 << 20
    for size in (4 * MB, 4 * MB + 4096, 6 * MB, 40 * MB, 40 * MB + 512, 41 * MB, 1, 0, 4096, 4095 * 1024):
        case = f"restore of an image of {size} bytes"
        h, m = Heap(), World()
        log = ("sym", "log", None)
        version = lambda I, A, kw, st: C("backy-extract 1.1.0")
        m.ext = dict(m.ext)
        m.ext.update({"subprocess.check_output": version, "subprocess.getoutput": version})
        repo = h.of("backy.repository.Repository", path=C("/base/job"), log=log, _lock_fds=h.dict({}))
        rev = h.of("backy.revision.Revision", uuid=C("u1"), repository=repo)
        src = h.of("backy.rbd.RBDSource", repository=repo, log=log, store=("sym", "store", None))
        image = h.of("backy.rbd.chunked.file.File" if "backy.rbd.chunked.file.File" in p.class_by_qual else p.cls("File").qual,
                     size=C(size), name=C("/base/job/u1"))
        args = h.of("backy.rbd.RBDRestoreArgs", target=C("/target"), backend=("enum", "backy.rbd.RestoreBackend", "AUTO"))
        sub = {fopen.qual: lambda I, fv, args, kw, st, node, fr: [(image, st)]}

        def used(what):
            def g(I, fv, args, kw, st, node, fr):
                st.mon = st.mon + ((what,),)
                return [(NONE, st)]
            return g
        for n in ("restore_file", "restore_stdout", "restore_backy_extract"):
            g = p.try_method("RBDSource", n)
            if g is not None:
                sub[g.qual] = used(n)
        for n in ("__enter__", "__exit__", "close"):
            g = p.try_method("File", n)
            if g is not None:
                sub[g.qual] = lambda I, fv, args, kw, st, node, fr, n=n: [(image if n == "__enter__" else NONE, st)]
        r = drive(ctx, m, f, h, src, case, args={n: v for n, v in zip(f.params()[1:], (rev, args))}, subst=sub)
        if r is not None and ("restore_backy_extract",) in r[1].mon and size % (4 * MB):
            ctx.finding("C14.extract", "RBDSource.restore", f"{case}: uses backy-extract, which only copies whole chunks of "
                        "4 MiB", f.loc)
            return


def check(ctx):
    ctx.rule("C14.extract", "only images of whole chunks are given to backy-extract unasked (constant sizes)")
    extract(ctx)
    ctx.rule("C14.lost", "all data read from the source is written to the target")
    ctx.rule("C14.whole", "copying ends only when the source is exhausted")
    ctx.rule("C14.start", "copying starts at the beginning of the source")
    ctx.rule("C14.size", "a target with old content is cut to the size of the source")
    ctx.rule("C14.error", "errors while reading or writing are not hidden")
    ctx.rule("C14.place", "source is the revision asked for, target the place asked for")
    F = {"File.__init__", "File.read", "File.write", "File.seek", "File.tell", "File.close",
         "File.flush", "Repository.lock"}
    e = "RBDSource.restore"
    m = Restore(ctx, e)
    I, out, exc = ctx.run(e, m, opaque=F)
    m.done(out)
    e = "CephRBD.full"
    m = Full(ctx, e, lambda t, st: t[0] == "attr" and t[2] == "stdout")
    I, out, exc = ctx.run(e, m, opaque=F)
    m.done(out)
    if "FileSource.restore":
        e = "FileSource.restore"
        m = FileCopy(ctx, e, lambda t: names_revision(t, "revision"), is_target)
        I, out, exc = ctx.run(e, m, opaque=F)
        m.done(out)
        e = "FileSource.backup"
        m = FileCopy(ctx, e, lambda t: any(s[0] == "attr" and s[2] == "filename"
                                           for s in subterms(t)),
                     lambda t: names_revision(t, "revision"))
        I, out, exc = ctx.run(e, m, opaque=F | {"Revision.write_info", "Revision.readonly"})
        m.done(out)
    ctx.need("copies", 2)
    ctx.need("exit", 2)
