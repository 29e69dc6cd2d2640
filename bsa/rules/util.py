from ..interp import Monitor
from ..terms import (C, FALSE, NONE, TRUE, basename, cval, dirname, endswith,
                     is_c, is_str, mentions, show, subterms)

WRITE = set("wax+")


def is_write_mode(m):
    return is_str(m) and bool(set(m[2]) & WRITE) or m == C("os.open")


def path_of(f, st):
    return st.heap.get((f, "#path"), f)


def last_is(path, name):
    b = basename(path)
    return b is not None and b == C(name)


def fact(st, pred):
    for a, v in st.facts.items():
        r = pred(a)
        if r is not None and r == v:
            return True
    return False


class TmpFiles(Monitor):
    """Typestate of files written to a temporary name and renamed.

    Monitor state: (files, failed, published).  files: path -> phase
    'new' < 'dirty' (bytes in the Python buffer) < 'flushed' (in the page
    cache) < 'synced'; and the payloads written."""

    def init(self):
        return ((), False, ())

    # overridden
    def publish(self, ev, st, I, src, dst, phase, payload, failed):
        pass

    def direct(self, ev, st, I, path, how):
        pass

    def on_throw(self, exc, st, I):
        f, _, p = st.mon
        st.mon = (f, True, p)

    def event(self, ev, st, I):
        files, failed, pub = st.mon
        d = dict(files)
        n = ev.name
        if ev.kind == "handler":
            st.mon = (files, False, pub)
            return
        if ev.kind != "call":
            return
        if n == "fs.mktemp":
            d[ev.args[0]] = ("new", ())
        elif n == "fs.fdopen":
            d.setdefault(ev.args[0], ("new", ()))
        elif n == "fs.open":
            p = ev.args[0]
            if is_write_mode(ev.args[1]):
                if p in d or p[0] == "tmp":
                    if "w" in str(cval(ev.args[1])):
                        d[p] = ("dirty", ())
                else:
                    self.direct(ev, st, I, p, "opened for writing")
        elif n in ("file.write", "file.writelines", "file.truncate") and ev.args:
            p = path_of(ev.args[0], st)
            if p in d:
                d[p] = ("dirty", d[p][1] + tuple(ev.args[1:2]))
        elif n == "file.flush":
            p = path_of(ev.args[0], st)
            if p in d and d[p][0] == "dirty":
                d[p] = ("flushed", d[p][1])
        elif n == "file.close":
            p = path_of(ev.args[0], st)
            if p in d and d[p][0] in ("dirty", "new"):
                d[p] = ("flushed", d[p][1])
        elif n == "file.fsync":
            p = path_of(ev.args[0], st)
            if p in d and d[p][0] in ("flushed", "new"):
                d[p] = ("synced", d[p][1])
        elif n == "os.sync":
            for p, (ph, w) in list(d.items()):
                if ph == "flushed":
                    d[p] = ("synced", w)
        elif n in ("fs.writefile",):
            self.direct(ev, st, I, ev.args[0], "written directly")
        elif n in ("fs.copy", "fs.copyobj") and len(ev.args) > 1:
            if ev.args[1][0] != "tmp":
                self.direct(ev, st, I, ev.args[1], "copied to directly")
            else:
                d[ev.args[1]] = ("flushed", (ev.args[0],))
        elif n == "fs.unlink":
            d.pop(ev.args[0], None)
        elif n in ("fs.rename", "fs.link"):
            src, dst = ev.args[0], ev.args[1]
            ph, w = d.pop(src, (None, ()))
            self.publish(ev, st, I, src, dst, ph, w, failed)
            pub = pub + (dst,) if dst not in pub else pub
        st.mon = (tuple(sorted(d.items(), key=repr)), failed, pub)


def flock_mode(t):
    """'EX' | 'SH' | 'UN' | None, blocking?"""
    names = {s[1] for s in subterms(t) if s[0] in ("ext", "app") and isinstance(s[1], str)}
    names |= {s[2] for s in subterms(t) if s[0] == "attr" and isinstance(s[2], str)}
    m = None
    for n in ("EX", "SH", "UN"):
        if any(x.endswith("LOCK_" + n) for x in names):
            m = n
    return m, not any(x.endswith("LOCK_NB") for x in names)


class Locks(Monitor):
    """Monitor state: tuple of (lock name, mode, file) held, then user state."""

    names = (".backup", ".purge")

    def init(self):
        return ((), self.init2())

    def init2(self):
        return ()

    def held(self, st):
        return {n: m for n, m, _ in st.mon[0]}

    def acquired(self, ev, st, I, name, mode, blocking):
        pass

    def on_throw(self, exc, st, I):
        # a call of flock that failed did not give us the lock
        self.refused(st, I)

    @staticmethod
    def refused(st, I):
        e = getattr(I, "last_event", None)
        if e is not None and e.kind == "call" and e.name == "flock" and len(e.args) > 1 \
                and flock_mode(e.args[1])[0] in ("EX", "SH"):
            h, u = st.mon
            st.mon = (tuple(x for x in h if x[2] != e.args[0]), u)
            return e

    def effect(self, ev, st, I):
        pass

    def event(self, ev, st, I):
        h, u = st.mon
        if ev.kind == "call" and ev.name == "flock":
            p = path_of(ev.args[0], st)
            b = basename(p)
            name = b[2] if is_str(b) else show(b)
            mode, blocking = flock_mode(ev.args[1]) if len(ev.args) > 1 else (None, True)
            if mode == "UN":
                h = tuple(x for x in h if x[2] != ev.args[0])
            elif mode:
                h = tuple(sorted(set(x for x in h if x[2] != ev.args[0])
                                 | {(name, mode, ev.args[0])}, key=repr))
                self.acquired(ev, st, I, name, mode, blocking)
            st.mon = (h, u)
            return
        if ev.kind == "call" and ev.name == "file.close":
            h2 = tuple(x for x in h if x[2] != ev.args[0])
            if h2 != h:
                st.mon = (h2, u)
                return
        self.effect(ev, st, I)


# -- collections ---------------------------------------------------------

KEEPS = {"list", "tuple", "set", "sorted", "reversed", "frozenset", "iter", "dict.fromkeys",
         ".copy", "copy.copy", "enumerate", "collections.deque"}


def root_of(t):
    """(root, conditions, partial): the collection a derived one was made of.
    conditions: facts every member satisfies (atoms mention the root's elem);
    partial: an operation that drops members for another reason."""
    conds, partial = {}, None
    while True:
        k = t[0]
        if k == "typed" and not (t[1][0] == "app" and t[1][1] == "scan"):
            t = t[1]
        elif k == "conv":
            t = t[2]
        elif k == "app" and t[1] in KEEPS and t[2]:
            t = t[2][0]
        elif k == "comp":
            alts = t[2]
            common = None
            for a in alts:
                c = dict(a[0])
                common = c if common is None else {
                    x: v for x, v in common.items() if c.get(x) == v}
            conds.update(common or {})
            if not alts:
                return t, conds, partial
            el = alts[0][1]
            if el[0] == "elem":
                t = el[1]
            else:
                t = t[3]
        elif k == "elem":
            return t, conds, partial
        elif k == "slice" or (k == "idx" and t[2][0] == "slice"):
            if all(x == NONE for x in t[2:] if isinstance(x, tuple)):
                t = t[1]
                continue
            partial = partial or "slice"
            t = t[1]
        elif k == "app" and t[1] in ("random.sample", "itertools.islice") and t[2]:
            partial = partial or t[1]
            t = t[2][0]
        else:
            return t, conds, partial


def outer(t):
    """Subterms, without those inside an ("elem", ...) term."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
                if x[0] == "elem":
                    continue
            stack.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset):
            stack.extend(x)


def elems(t):
    """The outermost ("elem", collection, n) terms in t."""
    return {s for s in outer(t) if s[0] == "elem"}


def is_history(t):
    return (t[0] == "typed" and t[1][0] == "app" and t[1][1] == "scan") or (
        t[0] == "attr" and t[2] == "history")


def reach(t, st):
    """subterms of t, looking into containers"""
    todo, seen = [t], set()
    while todo:
        for s in subterms(todo.pop()):
            if s in seen:
                continue
            seen.add(s)
            yield s
            if s[0] == "obj":
                for k in ("#c", "#k"):
                    for i in st.heap.get((s, k), ()):
                        todo += [x for x in i if isinstance(x, tuple)]


class Opened(Monitor):
    """Whose images are opened: those of peers' revisions are not here."""
    branches = True

    def __init__(self, ctx, rule, entry):
        self.ctx, self.rule, self.entry = ctx, rule, entry

    def event(self, ev, st, I):
        if ev.kind != "call" or not ev.name.endswith(("Source.open", ".File.__init__")) and \
                not (ev.kind == "new" and ev.name.endswith(".File")):
            return
        for a in ev.args[1:]:
            for r in [s for s in subterms(a) if s[0] == "elem"] if a[0] != "elem" else [a]:
                root, conds, partial = root_of(r[1])
                if not is_history(root):
                    continue
                self.ctx.saw("images opened", f"{self.entry}: {ev.loc()}")
                facts = list(st.facts.items()) + list(conds.items())
                if not any(s[0] == "attr" and s[2] == "server" for f, v in facts for s in subterms(f)) \
                        and not partial:
                    self.ctx.finding(self.rule, self.entry, "the images of revisions of other servers are "
                                     "opened, which are not here: it always fails with them", ev.loc(), st.path())
