"""Metadata files and the objects read from them."""
from ..interp import Budget
from .c31 import Heap, Times, value
from .util import *

# attributes of a revision that are state, the default an older file stands for
ATTRS = {"uuid": None, "timestamp": None, "stats": "empty", "tags": "empty", "orig_tags": "empty",
         "server": "", "trust": "TRUSTED"}
WRAP = {"list", "set", "tuple", "sorted", "frozenset", "str", "dict", "iter", "reversed"}


def whole(t, st):
    """(attribute, how) if the term is the whole value of an attribute, converted"""
    how = ()
    for _ in range(20):
        if t[0] == "typed":
            t = t[1]
        elif t[0] == "conv" and t[1] in WRAP:
            t = t[2]
        elif t[0] == "app" and len(t[2]) == 1 and (
                t[1] in WRAP or t[1] in (".isoformat", ".copy", "copy.copy", "copy.deepcopy", "dict")):
            how = how + ((t[1],) if t[1] == ".isoformat" else ())
            t = t[2][0]
        elif t[0] == "app" and t[1] in (".lower", ".upper") and t[2]:
            how = how + (t[1],)
            t = t[2][0]
        elif t[0] == "attr" and t[2] in ("value", "name") and t[1][0] == "attr":
            how = how + (t[2],)
            t = t[1]
        elif t[0] == "obj" and len(st.heap.get((t, "#c"), ())) == 1 and \
                st.heap[(t, "#c")][0][0] == "all":
            t = st.heap[(t, "#c")][0][1]
        elif t[0] == "comp" and all(a[1][0] == "elem" and not a[0] for a in t[2]) and t[2]:
            t = t[2][0][1][1]
        else:
            break
    return (t[2], how) if t[0] == "attr" and t[1][0] == "sym" and t[1][1] == "self" else (None, how)


def source(t, st, meta):
    """[(key, default, how)] of the metadata a value is made of"""
    res = []
    for s in reach(t, st):
        if s[0] == "idx" and s[1] == meta and is_str(s[2]):
            res.append((s[2][2], None))
        elif s[0] == "app" and s[1] in (".get", ".pop", ".setdefault") and len(s[2]) > 1 and \
                s[2][0] == meta and is_str(s[2][1]):
            res.append((s[2][1][2], s[2][2] if len(s[2]) > 2 else NONE))
    return res


def empty(t, st):
    return t[0] == "obj" and not st.heap.get((t, "#c")) and not st.heap.get((t, "#k")) or \
        t[0] == "tuple" and not t[1] or t == C("")


def revision(ctx):
    entry = "Revision.to_dict"
    I, out, exc = ctx.run(entry, Monitor(), opaque={"Revision.get_parent"})
    wrote = {}
    for v, st in out:
        pairs = {cval(k): x for k, x in st.heap.get((v, "#k"), ()) if is_str(k)}
        if not pairs:
            return {}
        got = {}
        for k, x in pairs.items():
            a, how = whole(x, st)
            if a in ATTRS:
                got[a] = (k, how)
                ctx.saw("fields", f"{entry}: {a} -> {k}")
        more = any(i[0] == "all" for i in st.heap.get((v, "#c"), ()))
        for a in ATTRS:
            if a not in got and not (more and a not in pairs):
                ctx.finding("C23.fields", entry, f"{a} is not written" + (
                    f" ({a}: {show(pairs[a])})" if a in pairs else ""), "", st.path())
        wrote = got
    # reading
    f = ctx.p.method("Revision", "from_dict")
    name = f.params()[1]
    meta = ("sym", name, ctx.p.param_type(f, name))
    entry = "Revision.from_dict"
    I, out, exc = ctx.run(f, Monitor())
    read = {}
    for v, st in out:
        for a in ATTRS:
            x = st.heap.get((v, a))
            if x is None:
                x = NONE
            src = source(x, st, meta)
            read.setdefault(a, []).append((x, src, st))
    for a, alts in read.items():
        if not any(src for x, src, st in alts):
            ctx.finding("C23.fields", entry, f"{a} is not read", "", alts[0][2].path())
            continue
        for x, src, st in alts:
            if not src:
                # a value made up instead: only if the one read is empty
                if ATTRS[a] is not None and not default_ok(a, x, st):
                    ctx.finding("C23.fields", entry, f"{a} is set to {show(x)}", "", st.path())
                continue
            for k, d in src:
                ctx.saw("fields", f"{entry}: {a} <- {k}")
                if a in wrote and k != wrote[a][0]:
                    ctx.finding("C23.fields", entry, f"{a} is read from {k!r}, but written to "
                                f"{wrote[a][0]!r}", "", st.path())
                if ATTRS[a] is not None and d is None and (k, "guarded") not in guards(st, meta):
                    ctx.finding("C23.older", entry, f"files without {k!r} cannot be read", "", st.path())
                elif d is not None and ATTRS[a] is not None and not default_ok(a, d, st) and \
                        not (d == NONE and tested(x, st)):
                    ctx.finding("C23.older", entry, f"{a} of files without {k!r} is {show(d)}", "",
                                st.path())
            if a in ("tags", "orig_tags") and not is_set(x):
                ctx.finding("C23.fields", entry, f"{a} is not made a set ({show(x)})", "", st.path())
            if a == "trust" and a in wrote:
                how = wrote[a][1]
                call = any(s[0] == "app" and s[1].endswith(".Trust") for s in subterms(x))
                byname = any(s[0] == "idx" and s[1][0] == "class" for s in subterms(x))
                if how == ("value",) and not call and byname or how == ("name",) and call:
                    ctx.finding("C23.fields", entry, f"trust is written as {how[0]}, but not read as "
                                "one", "", st.path())
                if not call and not byname and x[0] in ("app", "idx"):
                    ctx.finding("C23.fields", entry, "trust is not made a Trust", "", st.path())
    return wrote


def tested(x, st):
    """the path knows that the value is there"""
    return any(v and a == x or a[0] == "cmp" and x in a[2:4] for a, v in st.facts.items())


def guards(st, meta):
    res = set()
    for a, v in getattr(st, "facts", {}).items() if isinstance(getattr(st, "facts", {}), dict) else ():
        if v and a[0] == "cmp" and a[1] == "in" and a[3] == meta and is_str(a[2]):
            res.add((a[2][2], "guarded"))
    return res


def is_set(t):
    while t[0] == "typed":
        t = t[1]
    return t[0] == "obj" and t[2] == "set" or t[0] == "conv" and t[1] in ("set", "frozenset") or \
        t[0] == "comp" and t[1] == "set" or t[0] in ("loop", "mix", "bin") or \
        t[0] == "app" and t[1] in ("set", "frozenset")


def default_ok(a, d, st):
    want = ATTRS[a]
    if want == "empty":
        return empty(d, st) or d == NONE and False
    if a == "server":
        return d == C("")
    # trust
    return d == C("trusted") or d[0] == "enum" and d[2] == "TRUSTED" or d == C("TRUSTED") or \
        d[0] == "attr" and any(s[0] == "enum" and s[2] == "TRUSTED" for s in subterms(d))


class Written(Monitor):
    """write_info: state: what was dumped"""

    def __init__(self):
        self.dumped, self.names = [], []

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name in ("yaml.safe_dump", "yaml.dump", "json.dump"):
            self.dumped.append((ev, st))
        if ev.kind == "new" and ev.name.endswith("SafeFile"):
            self.names.append((ev.args[1], ev, st))


class Load(Monitor):
    def __init__(self):
        self.opened = []

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name in ("fs.open", "fs.readfile") or ev.name == "yaml.safe_load":
            self.opened.append((ev, st))


def files(ctx):
    m = Written()
    ctx.run("Revision.write_info", m, opaque={"Revision.to_dict"})
    entry = "Revision.write_info"
    for ev, st in m.dumped:
        ctx.saw("files", f"{entry}: {ev.loc()}")
        if not any(s[0] == "app" and s[1].endswith("Revision.to_dict") and s[2]
                   and s[2][0][:2] == ("sym", "self") for s in subterms(ev.args[0])):
            ctx.finding("C23.files", entry, f"what is written is {show(ev.args[0])}", ev.loc(), st.path())
    if not m.dumped:
        ctx.finding("C23.files", entry, "nothing is written", "")
    suffixes = set()
    for p, ev, st in m.names:
        suf = suffix(p)
        ctx.saw("files", f"{entry}: {show(p)}")
        if suf is None:
            continue
        suffixes.add(suf)
        if not any(s[0] == "attr" and s[2] == "path" for s in subterms(p)) or not any(
                s[0] == "attr" and s[2] == "uuid" for s in subterms(p)):
            ctx.finding("C23.files", entry, f"the file name {show(p)} is not made of the directory of "
                        "the repository and the uuid", ev.loc(), st.path())
    names = {p for p, ev, st in m.names}

    class Remove(Monitor):
        def init(s):
            return False

        def event(s, ev, st, I):
            if ev.kind == "call" and ev.name == "fs.unlink":
                ctx.saw("files", f"Revision.remove: {show(ev.args[0])}")
                if names and ev.args[0] not in names:
                    ctx.finding("C23.files", "Revision.remove", f"{show(ev.args[0])} is removed instead "
                                "of the metadata file", ev.loc(), st.path())
    ctx.run("Revision.remove", Remove(), opaque={"Revision.write_info"})

    # load() makes the revision of the file it is given, of everything in it
    m = Load()
    f = ctx.p.method("Revision", "load")
    n = f.params()[1]
    path = ("sym", n, ctx.p.param_type(f, n))
    entry = "Revision.load"
    I, out, exc = ctx.run(f, m, opaque={"Revision.from_dict"})
    for ev, st in m.opened:
        if ev.name.startswith("fs.") and ev.args[0] != path:
            ctx.finding("C23.files", entry, f"reads {show(ev.args[0])}", ev.loc(), st.path())
    for v, st in out:
        a = [s for s in reach(v, st) if s[0] == "app" and s[1].endswith(".from_dict")]
        if not a or not any(s[0] == "app" and s[1].startswith(("yaml.", "json.")) for s in subterms(a[0])):
            if v[0] in ("app", "typed", "c"):
                ctx.finding("C23.files", entry, f"the revision is {show(v)}", "", st.path())
    return suffixes


def suffix(p):
    """The constant end of a file name"""
    if p[0] == "join":
        p = p[2]
    if p[0] == "str" and is_str(p[1][-1]):
        return p[1][-1][2]
    if p[0] == "app" and p[1] == ".with_suffix":
        return None
    return None


class Scan(Monitor):
    """state: (sorted, read)"""
    loops = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.breaks = []

    def init(self):
        return (False,)

    def event(self, ev, st, I):
        srt = st.mon[0]
        if ev.kind == "mutate" and ev.name == "sort" and is_hist(ev.args[0], st):
            srt = self.key(I, ev, dict(ev.kw or {}), st)
        elif ev.kind == "mutate" and ev.name in ("append", "insert", "extend", "reverse") and \
                is_hist(ev.args[0], st) and srt:
            srt = False
        elif ev.kind == "setattr" and ev.name == "history":
            srt = False
            for s in subterms(ev.args[1]):
                if s[0] == "conv" and s[1] == "sorted":
                    srt = self.key(I, ev, I.sorts.get(s, {}), st)
        elif ev.kind == "loopend" and ev.name == "break" and any(
                s[0] == "app" and s[1] in ("fs.glob", "fs.scandir") for s in subterms(ev.args[0])):
            self.ctx.finding("C23.scan", "Repository.scan", "stops before all files are read", ev.loc(),
                             st.path())
        elif ev.kind == "call" and ev.name in ("fs.glob", "fs.scandir"):
            self.ctx.saw("scans", f"{show(ev.args[0])} {show(ev.args[1]) if len(ev.args) > 1 else ''}")
            if not any(s[0] == "attr" and s[2] == "path" for s in subterms(ev.args[0])):
                self.ctx.finding("C23.scan", "Repository.scan", f"looks for files in "
                                 f"{show(ev.args[0])}", ev.loc(), st.path())
        st.mon = (srt,)

    def key(self, I, ev, kw, st):
        if kw.get("reverse") == TRUE:
            self.ctx.finding("C23.scan", "Repository.scan", "the history is not sorted oldest first",
                             ev.loc(), st.path())
        k = kw.get("key")
        if k is None:
            self.ctx.finding("C23.scan", "Repository.scan", "the history is not sorted by time", ev.loc(),
                             st.path())
            return True
        r = ("sym", "r", ("cls", I.p.cls("Revision").qual))
        if k[0] == "ext" or k[0] == "app" and "attrgetter" in k[1]:
            vals = [x[2] for x in k[2] if is_str(x)] if k[0] == "app" else []
            ok = vals[:1] == ["timestamp"]
        else:
            try:
                # evaluated without the events of the monitor
                mon, I.mon = I.mon, Monitor()
                try:
                    s2 = st.copy()
                    res = I.call(k, [r], {}, s2, ev.node, I.entry_frame)
                finally:
                    I.mon = mon
                ok = all(v[0] == "attr" and v[1] == r and v[2] == "timestamp" or v[0] == "tuple" and v[1]
                         and v[1][0] == ("attr", r, "timestamp") for v, _ in res)
            except Exception:
                ok = True
        if not ok:
            self.ctx.finding("C23.scan", "Repository.scan", "the history is not sorted by time",
                             ev.loc(), st.path())
        return True


def is_hist(t, st):
    return t[0] == "attr" and t[2] == "history" or any(
        k[1] == "history" and x == t for k, x in st.heap.items())


def scan(ctx, suffixes):
    entry = "Repository.scan"
    m = Scan(ctx)
    I, out, exc = ctx.run(entry, m, opaque={"Revision.load"}, scan=False)
    for v, st in out:
        h = next((x for k, x in st.heap.items() if k[1] == "history" and k[0][:2] == ("sym", "self")), None)
        if h is None:
            ctx.finding("C23.scan", entry, "the history is not read", "", st.path())
            continue
        while h[0] == "conv":
            h = h[2]
        if h[0] == "obj" and not st.heap.get((h, "#c")):
            continue        # nothing found
        if not st.mon[0]:
            ctx.finding("C23.scan", entry, "the history is not sorted by time", "", st.path())
        if h[0] != "comp":
            continue
        ctx.saw("scans", show(h))
        if h[1] == "set":
            ctx.finding("C23.scan", entry, "the history is a set", "", st.path())
        globs = [s for s in subterms(h[3]) if s[0] == "app" and s[1] in ("fs.glob", "fs.scandir")]
        for g in globs:
            pat = g[2][1] if len(g[2]) > 1 else None
            if pat is not None and is_str(pat) and suffixes and pat[2] not in {
                    "*" + s for s in suffixes}:
                ctx.finding("C23.scan", entry, f"reads files {pat[2]}, which are not those written "
                            f"({', '.join(suffixes)})", "", st.path())
        for facts, val in h[2]:
            if not any(s[0] == "app" and s[1].endswith("Revision.load") for s in subterms(val)):
                if val[0] in ("app", "c", "elem"):
                    ctx.finding("C23.scan", entry, f"the history contains {show(val)}", "", st.path())
            for a, tv in facts:
                if a[0] == "app" and a[1] in ("fs.islink", ".is_symlink") and not tv:
                    continue
                if a[0] == "cmp" and a[1] == "in" and not tv:
                    continue
                if a[0] == "app" and a[1] in ("fs.exists", "fs.isfile", ".is_file") and tv:
                    continue
                ctx.finding("C23.scan", entry, "files are left out: only those with "
                            f"{show(a)} {'true' if tv else 'false'} are read", "", st.path())
            if not any(a[0] == "app" and a[1] in ("fs.islink", ".is_symlink") for a, tv in facts):
                ctx.finding("C23.scan", entry, "symbolic links are read as revisions of their own", "",
                            st.path())


class Index(Monitor):
    """scan and the index by uuid: a revision is entered in both, in the same iteration.
    state: (listed, indexed, link or known)"""
    loops = True
    branches = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.found, self.lists, self.indexes = [], False, False

    def init(self):
        return (None, frozenset(), frozenset())

    def end(self, out):
        entry = "Repository.scan"

        def has(st, name):
            x = next((x for k, x in st.heap.items() if k[1] == name and k[0][:2] == ("sym", "self")), None)
            return x is not None and not empty(x, st)
        if self.lists and self.indexes:
            for ev, st in self.found:
                self.ctx.finding("C23.scan", entry, "a revision in the history is not found by its uuid, or "
                                 "the other way round", ev.loc(), st.path())
        elif out:
            for name in ("history", "_by_uuid"):
                if not any(has(st, name) for v, st in out):
                    self.ctx.finding("C23.scan", entry, f"{name} is not filled", "", out[0][1].path())

    def event(self, ev, st, I):
        cur, listed, indexed = st.mon
        if ev.kind == "iter":
            cur, listed, indexed = ev.args[1], frozenset(), frozenset()
        elif ev.kind == "mutate" and ev.name in ("append", "add", "insert"):
            listed |= {x for x in ev.args[1:] if any(s[0] == "app" and s[1].endswith("Revision.load")
                                                     for s in subterms(x))}
        elif ev.kind == "setitem" and len(ev.args) > 2:
            x = ev.args[2]
            if any(s[0] == "app" and s[1].endswith("Revision.load") for s in subterms(x)):
                indexed |= {x}
                self.ctx.saw("index", ev.loc())
                k = ev.args[1]
                if k[0] == "attr" and k[1] == x and k[2] != "uuid":
                    self.ctx.finding("C23.scan", "Repository.scan", f"revisions are found by {show(k)}",
                                     ev.loc(), st.path())
        elif ev.kind == "iterend" and cur is not None and listed != indexed:
            self.found.append((ev, st))
        self.lists |= bool(listed)
        self.indexes |= bool(indexed)
        st.mon = (cur, listed, indexed)


class Removed(Monitor):
    """remove(): state: (file gone, tags taken, remote)"""
    branches = True

    def __init__(self, ctx):
        self.ctx = ctx

    def init(self):
        return (False, None, None, None, False, False, False)

    def event(self, ev, st, I):
        gone, exists, force, server, cleared, written, inh = st.mon
        if ev.kind == "call" and ev.name == "fs.unlink":
            gone = True
        elif ev.kind == "fact":
            a, v = ev.args[0], ev.args[1] == TRUE
            if a[0] == "app" and a[1] == "fs.exists":
                exists = v
            elif a[0] == "sym" and a[1] == "force":
                force = v
            elif a[0] == "attr" and a[2] == "server":
                server = v
            elif a[0] == "cmp" and a[1] == "in" and a[2][:2] == ("sym", "self"):
                inh = v
        elif ev.kind == "mutate" and ev.name == "clear" and ev.args[0][0] == "attr" and \
                ev.args[0][2] == "tags":
            cleared = True
        elif ev.kind == "setattr" and ev.name == "tags":
            cleared = empty(ev.args[1], st)
        elif (ev.kind == "setattr" or ev.kind == "mutate" and ev.name == "clear" and
              ev.args[0][0] == "attr") and server is not False and \
                (ev.name if ev.kind == "setattr" else ev.args[0][2]) == "orig_tags":
            self.ctx.finding("C23.remove", "Revision.remove", "the tags known to the other server are "
                             "forgotten: the removal is never passed on", ev.loc(), st.path())
        elif ev.kind == "mutate" and ev.name == "popitem":
            self.ctx.finding("C23.remove", "Revision.remove", "another revision cannot be found by its "
                             "uuid any more", ev.loc(), st.path())
        elif ev.kind == "call" and ev.name.endswith("Revision.write_info"):
            written = cleared
        st.mon = (gone, exists, force, server, cleared, written, inh)

    def end(self, out):
        entry = "Revision.remove"
        for v, st in out:
            gone, exists, force, server, cleared, written, inh = st.mon
            self.ctx.saw("removals", f"force={force} server={server} gone={gone}")
            if server is not False and not force:
                if gone:
                    self.ctx.finding("C23.remove", entry, "the record of a revision of another server "
                                     "is removed instead of marked", "", st.path())
                elif not written and server:
                    self.ctx.finding("C23.remove", entry, "a revision of another server is not marked "
                                     "for removal (no tags, written)", "", st.path())
            elif (force or server is False) and not gone and exists is not False:
                self.ctx.finding("C23.remove", entry, "the metadata file stays", "", st.path())


class Chunks(TmpFiles):
    """Chunks set aside. state: (temporary files, failed, paths written or already there)"""
    branches = True

    def __init__(self, ctx):
        self.ctx = ctx

    def event(self, ev, st, I):
        super().event(ev, st, I)
        if ev.kind == "fact":
            for s in subterms(ev.args[0]):
                if s[0] == "app" and s[1] == "fs.exists" and ev.args[1] == TRUE:
                    f, x, pub = st.mon
                    st.mon = (f, x, pub + (s[2][0],) if s[2][0] not in pub else pub)

    def publish(self, ev, st, I, src, dst, phase, payload, failed):
        names = of(dst)
        for d in payload:
            self.ctx.saw("quarantine", f"{show(d)} -> {show(dst)}")
            if d[0] in ("idx", "slice") and of(d) or d[0] == "app" and d[1] in ("slice", "getslice") and of(d):
                self.ctx.finding("C23.reports", "ChunkMismatchReport.store", "only a part of the chunk is "
                                 "stored", ev.loc(), st.path())
            if names and of(d) and not of(d) & names:
                self.ctx.finding("C23.reports", "ChunkMismatchReport.store", f"{show(d)} is stored as "
                                 f"{show(dst)}", ev.loc(), st.path())


class Reports(Chunks):
    def publish(self, ev, st, I, src, dst, phase, payload, failed):
        self.ctx.saw("reports", f"{[show(d) for d in payload]} -> {show(dst)}")
        if not any(s[0] == "app" and s[1].endswith("Report.to_dict") and s[2] and s[2][0][:2] == ("sym", "self")
                   for d in payload for s in reach(d, st)):
            self.ctx.finding("C23.reports", "ProblemReport.store", "the report file does not have what the report "
                             "says: " + (", ".join(map(show, payload)) or "nothing is written"), ev.loc(), st.path())


def of(t):
    return {s[2].split("_")[0] for s in subterms(t) if s[0] == "attr" and s[2] in (
        "source_chunk", "target_chunk", "source_hash", "target_hash")}


def reports(ctx):
    class W(Written):
        pass
    entry = "ProblemReport.store"
    m = W()
    ctx.run(entry, m)
    for p, ev, st in m.names:
        ctx.saw("reports", show(p))
        if p[0] == "join" and not any(s[0] == "attr" and s[2] == "uuid" for s in subterms(p[2])):
            ctx.finding("C23.reports", entry, f"the report file {show(p)} is not named after its id",
                        ev.loc(), st.path())
    if not m.names:
        ctx.finding("C23.reports", entry, "the report is not written", "")
    r = Reports(ctx)
    I, out, exc = ctx.run(entry, r, opaque={"ProblemReport.to_dict", "ChunkMismatchReport.to_dict"})
    for v, st in out:
        if not any(p[0] not in ("join", "sym", "attr") or any(
                x[0] == "attr" and x[2] == "uuid" for x in subterms(p)) for p in st.mon[2]):
            ctx.finding("C23.reports", entry, "the report is not written", "", st.path())
    suf = {suffix(p) for p, _, _ in m.names} - {None}

    class Sub(Monitor):
        def init(s):
            return False

        def event(s, ev, st, I):
            if ev.kind == "call" and (ev.name.endswith("ProblemReport.store") or any(
                    is_str(x) and x[2].endswith(".report") for a in ev.args for x in subterms(a))):
                st.mon = True
    if ctx.p.try_method("ChunkMismatchReport", "store"):
        I, out, exc = ctx.run("ChunkMismatchReport.store", Sub(), opaque={
            "ProblemReport.store", "ChunkMismatchReport._store_chunk"})
        for v, st in out:
            ctx.saw("reports", "store of a mismatch")
            if not st.mon:
                ctx.finding("C23.reports", "ChunkMismatchReport.store", "the chunks are stored, but not the report",
                            "", st.path())
    entry = "Repository.scan_reports"
    I, out, exc = ctx.run(entry, Monitor())
    for v, st in out:
        h = next((x for k, x in st.heap.items() if k[1] == "report_ids" and k[0][:2] == ("sym", "self")),
                 None)
        if h is None:
            ctx.finding("C23.reports", entry, "the list of reports is not read", "", st.path())
            continue
        if h[0] != "comp":
            continue
        for s in subterms(h[3]):
            if s[0] == "app" and s[1] == "fs.glob" and is_str(s[2][1]) and suf and \
                    s[2][1][2] not in {"*" + x for x in suf}:
                ctx.finding("C23.reports", entry, f"looks for {s[2][1][2]}", "", st.path())
        for facts, val in h[2]:
            for a, tv in facts:
                if not (a[0] == "app" and a[1] in ("fs.islink", "fs.isfile", ".is_file")):
                    ctx.finding("C23.reports", entry, f"reports are left out ({show(a)})", "", st.path())
            cut = [s for s in subterms(val) if s[0] == "app" and s[1] == ".removesuffix"]
            if cut and is_str(cut[0][2][1]) and suf and cut[0][2][1][2] not in suf:
                ctx.finding("C23.reports", entry, f"ids end with {', '.join(suf)}", "", st.path())
            ctx.saw("reports", show(val))

    class Add(Monitor):
        def init(s):
            return (False, False)

        def event(s, ev, st, I):
            stored, listed = st.mon
            if ev.kind == "call" and ev.name.endswith(".store"):
                stored = True
                ctx.saw("reports", f"add_report {ev.loc()}")
                if not any(x[0] == "attr" and x[2] == "report_path" or is_str(x) and "quarantine" in x[2]
                           for a in ev.args for x in subterms(a)):
                    ctx.finding("C23.reports", "Repository.add_report", "the report is stored somewhere "
                                "else", ev.loc(), st.path())
            elif ev.kind == "mutate" and ev.name in ("append", "add"):
                listed = True
                if not stored:
                    ctx.finding("C23.reports", "Repository.add_report", "the report is listed before it "
                                "is stored", ev.loc(), st.path())
            elif ev.kind == "call" and ev.name.endswith(".scan_reports") or \
                    ev.kind == "setattr" and ev.name == "report_ids":
                listed = listed or stored
            st.mon = (stored, listed)
    I, out, exc = ctx.run("Repository.add_report", Add(), opaque={
        "ProblemReport.store", "ChunkMismatchReport.store", "Repository.scan_reports"})
    for v, st in out:
        if st.mon != (True, True):
            ctx.finding("C23.reports", "Repository.add_report", "the report is not "
                        + ("listed" if st.mon[0] else "stored"), "", st.path())

    # quarantined chunks: each under the hash of its own data, both of them
    entry = "ChunkMismatchReport.store"
    m = Chunks(ctx)
    I, out, exc = ctx.run(entry, m)
    for v, st in out:
        done = {n for p in st.mon[2] for n in of(p)}
        for which in ("source", "target"):
            if which not in done:
                ctx.finding("C23.reports", entry, f"the {which} chunk is not stored", "", st.path())
    entry = "ChunkMismatchReport.to_dict"
    I, out, exc = ctx.run(entry, Monitor())
    for v, st in out:
        pairs = {cval(k): x for k, x in st.heap.get((v, "#k"), ()) if is_str(k)}
        if not pairs:
            continue
        for a in ("uuid", "timestamp", "source_hash", "target_hash", "offset"):
            ctx.saw("reports", f"{a}: {show(pairs.get(a, NONE))}")
            if a not in pairs or not any(x[0] == "attr" and x[2] == a for x in reach(pairs[a], st)):
                ctx.finding("C23.reports", entry, f"{a} is {show(pairs[a]) if a in pairs else 'missing'}",
                            "", st.path())
    f = ctx.p.method("ChunkMismatchReport", "__init__")
    entry2 = "ChunkMismatchReport.__init__"
    I, out, exc = ctx.run(f, Monitor())
    for v, st in out:
        o = next((x for k, x in st.heap.items() if k[1] == "offset"), None)
        if not ctx.p.try_method("ChunkMismatchReport", "offset") and (
                o is None or not any(s[:2] == ("sym", "offset") for s in subterms(o))):
            ctx.finding("C23.reports", entry2, f"the offset of the report is {show(o) if o else 'missing'}", "",
                        st.path())
        for which in ("source", "target"):
            h = next((x for k, x in st.heap.items() if k[1] == which + "_hash"), None)
            c = next((x for k, x in st.heap.items() if k[1] == which + "_chunk"), None)
            for a, x in (("hash", h), ("chunk", c)):
                if x is None and not ctx.p.try_method("ChunkMismatchReport", which + "_" + a):
                    ctx.finding("C23.reports", entry2, f"the report has no {which}_{a}", "", st.path())
            if h is None or c is None:
                continue
            ctx.saw("quarantine", f"{which}: {show(h)}")
            other = "target" if which == "source" else "source"
            if not any(s == ("sym", which + "_chunk", s[2] if len(s) > 2 else None) or
                       s[0] == "attr" and s[2] == which + "_chunk" for s in subterms(h)):
                ctx.finding("C23.reports", "ChunkMismatchReport.__init__", f"{which}_hash is {show(h)}",
                            "", st.path())
            if any(s[0] == "sym" and s[1] == other + "_chunk" for s in subterms(c)):
                ctx.finding("C23.reports", "ChunkMismatchReport.__init__", f"{which}_chunk is {show(c)}",
                            "", st.path())


def lookups(ctx):
    """get_history and the lookup by uuid"""
    f = ctx.p.method("Repository", "get_history")
    for clean in (True, False):
        for local in (True, False):
            I, out, exc = ctx.run(f, Monitor(), args={"clean": C(clean), "local": C(local)}, scan=False)
            for v, st in out:
                root, conds, partial = root_of(v)
                entry = f"Repository.get_history(clean={clean}, local={local})"
                ctx.saw("selections", f"{entry}: {show(v)} {[(show(a), x) for a, x in conds.items()]}")
                if not is_history(root):
                    if root[0] in ("c", "obj"):
                        ctx.finding("C23.history", entry, f"the answer is {show(v)}", "", st.path())
                    continue
                got = set()
                for a, x in conds.items():
                    if any(s[0] == "attr" and s[2] == "stats" for s in subterms(a)):
                        got.add(("clean", x))
                    elif any(s[0] == "attr" and s[2] == "server" for s in subterms(a)):
                        neg = a[0] == "cmp" and a[1] == "==" and C("") in a[2:4]
                        got.add(("local", x == neg))
                    elif any(s[0] == "elem" for s in subterms(a)):
                        got.add((show(a), x))
                want = {("clean", True)} if clean else set()
                want |= {("local", True)} if local else set()
                if got != want or partial:
                    ctx.finding("C23.history", entry, "selects revisions by "
                                + (", ".join(f"{k} is {str(x).lower()}" for k, x in sorted(got))
                                   or partial or "nothing"), "", st.path())
    for name, clean, local in (("clean_history", True, False), ("local_history", False, True)):
        f = ctx.p.method("Repository", name)
        m = Monitor()
        I, out, exc = ctx.run(f, m, scan=False)
        for v, st in out:
            root, conds, partial = root_of(v)
            if not is_history(root):
                continue
            got = {n for a in conds for n in ("stats", "server") if any(
                s[0] == "attr" and s[2] == n for s in subterms(a))}
            ctx.saw("selections", f"{name}: {sorted(got)}")
            if got != ({"stats"} if clean else set()) | ({"server"} if local else set()) or partial:
                ctx.finding("C23.history", f"Repository.{name}", "selects revisions by "
                            + (", ".join(sorted(got)) or partial or "nothing"), "", st.path())
    f = ctx.p.method("Repository", "find_by_uuid")
    n = f.params()[1]
    I, out, exc = ctx.run(f, Monitor(), scan=False)
    for v, st in out:
        x = v
        while x[0] == "typed":
            x = x[1]
        ctx.saw("selections", f"find_by_uuid: {show(v)}")
        if v == NONE or x[0] == "app" and x[1] == ".get" and not tested(x, st) or x[0] == "idx" and x[1][0] == "attr" and not (x[1][2] == "_by_uuid" and any(
                s[0] == "sym" and s[1] == n for s in subterms(x[2]))):
            ctx.finding("C23.history", "Repository.find_by_uuid", f"the answer is {show(v)}", "",
                        st.path())


class Fields(Times):
    const = {"datetime.timezone.utc": C("UTC"), "datetime.UTC": C("UTC")}
    ext = {**Times.ext, ("attr", "tzinfo"): lambda x: C("UTC"),
           ".replace": lambda I, A, kw, st: C(float(int(A[0][2]))) if A and is_c(A[0]) and isinstance(
               A[0][2], float) and "microsecond" in kw else None,
           "datetime.datetime.fromisoformat": lambda I, A, kw, st: C(float(A[0][2]))
           if A and is_str(A[0]) else None}


REVISIONS = [
    dict(uuid="ABCdef", timestamp=1000.25, server="", trust="TRUSTED", tags=(), orig_tags=(), stats={}),
    dict(uuid="a.b-c", timestamp=5.5, server="srv.Example", trust="DISTRUSTED", tags=("Daily", "manual:x y"),
         orig_tags=("Daily",), stats={"duration": 3.5}),
    dict(uuid="u", timestamp=7.75, server="b", trust="VERIFIED", tags=(), orig_tags=("weekly",),
         stats={"bytes_written": 0, "bytes_read": 12, "x": 1}),
    dict(uuid="u", timestamp=7.0, server="", trust="VERIFIED", tags=(" a ", "ALL"), orig_tags=(),
         stats={"bytes_written": 17}),
]


def the_trust(ctx, t):
    """The member of Trust t stands for"""
    if t[0] == "enum":
        return t[2]
    if t[0] == "app" and t[1].endswith("Trust") and t[2] and is_c(t[2][0]):
        v = t[2][0][2]
        return {"trusted": "TRUSTED", "distrusted": "DISTRUSTED", "verified": "VERIFIED"}.get(v)
    return None


def round_trip(ctx):
    """What from_dict makes of what to_dict gives, for concrete revisions"""
    to, frm = (ctx.p.try_method("Revision", n) for n in ("to_dict", "from_dict"))
    trust = next((c.qual for c in ctx.p.class_by_qual.values()
                  if c.qual.endswith("revision.Trust")), None)
    if None in (to, frm, trust) or len(frm.params()) < 4:
        return
    for i, r in enumerate(REVISIONS):
        h = Heap()
        repo = h.of("backy.repository.Repository", history=h.seq("list", []), _by_uuid=h.dict({}))
        me = h.of("backy.revision.Revision", uuid=C(r["uuid"]), timestamp=C(r["timestamp"]),
                  server=C(r["server"]), trust=("enum", trust, r["trust"]), repository=repo,
                  tags=h.seq("set", [C(t) for t in r["tags"]]),
                  orig_tags=h.seq("set", [C(t) for t in r["orig_tags"]]),
                  stats=h.dict({k: C(v) for k, v in r["stats"].items()}))
        for older, text in ((False, False), (True, False), (False, True)):
            m = Fields()
            case = f"revision {i}" + (" as an older version wrote it" if older else
                                      " as a peer sends it" if text else "")
            want = dict(r)
            try:
                I, out, exc = ctx.run(to, m, st=h.state(m), self_val=me, lookup=False, scan=False,
                                      subst={"backy.revision.Revision.get_parent":
                                             lambda *a: [(NONE, a[4])]}, max_steps=20000)
                if len(out) != 1 or out[0][0][0] != "obj":
                    ctx.saw("undecided", case)
                    continue
                d, st = out[0]
                if text:
                    st = st.copy()
                    st.heap[(d, "#k")] = tuple(
                        (k, C(str(x[2])) if k == C("timestamp") and is_c(x) else x)
                        for k, x in st.heap.get((d, "#k"), ()))
                if older:
                    st = st.copy()
                    kk = tuple(x for x in st.heap.get((d, "#k"), ())
                               if x[0] in (C("uuid"), C("timestamp"), C("parent")))
                    st.heap[(d, "#k")] = kk
                    st.heap[(d, "#c")] = tuple(("v", k) for k, _ in kk)
                    want.update(server="", trust="TRUSTED", tags=(), orig_tags=(), stats={})
                ps = frm.params()[1:]
                I, out, exc = ctx.run(frm, m, st=st, self_val=("class", "backy.revision.Revision"),
                                      args=dict(zip(ps, (d, repo, ("sym", "log", None)))), lookup=False,
                                      scan=False, max_steps=20000)
            except Budget:
                out, exc = [], []
            if len(out) != 1 or any(x[0] == "exc" and x[2] and x[1] != "AssertionError" for x, _ in exc):
                ctx.saw("undecided", f"{case}: {len(out)} answers")
                continue
            v, st = out[0]
            for a, w in want.items():
                t = st.heap.get((v, a))
                if a == "trust":
                    got = None if t is None else the_trust(ctx, t)
                else:
                    got = None if t is None else value(t, st)
                    w = ("c", w) if a in ("uuid", "timestamp", "server") else \
                        ("d", frozenset((("c", k), ("c", x)) for k, x in w.items())) if a == "stats" else \
                        ("s", frozenset(("c", x) for x in w))
                if got is None:
                    ctx.saw("undecided", f"{case}: {a} is {show(t)[:60] if t else 'unknown'}")
                    continue
                ctx.saw("decided", f"{case}: {a}")
                if got != w:
                    ctx.finding("C23.older" if older else "C23.fields", "Revision.from_dict",
                                f"{case}: {a} is read as {plain(got)}, but was {plain(w)}", "",
                                st.path())


def plain(v):
    if isinstance(v, tuple) and v and v[0] == "c":
        return repr(v[1])
    if isinstance(v, tuple) and v and v[0] == "s":
        return "{" + ", ".join(sorted(plain(x) for x in v[1])) + "}"
    if isinstance(v, tuple) and v and v[0] == "d":
        return "{" + ", ".join(sorted(f"{plain(k)}: {plain(x)}" for k, x in v[1])) + "}"
    return str(v)


def check(ctx):
    round_trip(ctx)
    ctx.rule("C23.fields", "every attribute is read from where it is written")
    ctx.rule("C23.older", "files of older versions are read, with the defaults")
    ctx.rule("C23.files", "metadata is written to and read from the file of the revision")
    ctx.rule("C23.scan", "the history has one revision per file, oldest first")
    ctx.rule("C23.remove", "removing removes the file, or marks revisions of other servers")
    ctx.rule("C23.history", "selections of the history are by what they say")
    ctx.rule("C23.reports", "problem reports are stored and listed under their id, with both chunks")
    revision(ctx)
    suf = files(ctx)
    scan(ctx, suf)
    m = Index(ctx)
    I, out, exc = ctx.run("Repository.scan", m, opaque={"Revision.load"}, scan=False)
    m.end(out)
    m = Removed(ctx)
    I, out, exc = ctx.run("Revision.remove", m, opaque={"Revision.write_info"})
    m.end(out)
    lookups(ctx)
    reports(ctx)
    ctx.need("fields", 7)
    ctx.need("scans", 1)
