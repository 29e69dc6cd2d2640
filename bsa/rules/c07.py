"""Repository locks: released on every exit, refused without effect."""
from .util import *

UNTIL = ("fs.unlink", "fs.rename", "fs.link", "fs.rmtree", "spawn")


class Mon(Locks):
    branches = True
    """user state: (lock held already, bookkeeping entries, refused lock, requested modes)"""

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init2(self):
        return ((), (), None, ())

    def on_throw(self, exc, st, I):
        e = self.refused(st, I)
        if e is not None:
            h, u = st.mon
            st.mon = (h, (u[0], u[1], e.loc(), u[3]))

    def acquired(self, ev, st, I, name, mode, blocking):
        h, u = st.mon
        self.ctx.saw("lock", f"{self.entry}: {name} {mode}")
        if mode == "EX" and blocking:
            self.ctx.finding("C07.nonblocking", name + " EX",
                             "the exclusive lock is waited for instead of refused",
                             ev.loc(), st.path())
        if mode == "SH" and not blocking:
            self.ctx.finding("C07.waits", name + " SH",
                             "the shared lock is refused instead of waited for: restores and "
                             "backups fail while a short purge is running", ev.loc(), st.path())
        for t, m in u[3]:
            if t == name and {"exclusive": "EX", "shared": "SH"}[m] != mode:
                self.ctx.finding("C07.mode", f"{name} {m}",
                                 f"an {m} lock on {name} was asked for, flock is called for "
                                 f"{mode}", ev.loc(), st.path())
        st.mon = (h, (u[0], u[1], u[2], ()))

    def effect(self, ev, st, I):
        h, (op, book, refused, req) = st.mon
        if ev.kind == "enter":
            cs = [a[2] for a in list(ev.args) + list((ev.kw or {}).values()) if is_str(a)]
            ms = [c for c in cs if c in ("shared", "exclusive")]
            ts = [c for c in cs if c in self.names]
            if len(ms) == 1 and len(ts) == 1 and ev.name.endswith(".lock"):
                req = tuple(sorted(set(req) | {(ts[0], ms[0])}))
        elif ev.kind == "setitem" and len(ev.args) == 3:
            c, k, v = ev.args
            if any(last_is(path_of(v, st), n) for n in self.names):
                self.ctx.saw("bookkeeping", show(c))
                if ev.extra is not False and not any(
                        mentions(a, c) and mentions(a, k) and a != ("cmp", "in", k, c)
                        for a in st.facts):
                    self.ctx.finding("C07.reentrant", show(c),
                                     "a lock is taken without checking that this repository "
                                     "object does not hold it already: the outer holder loses "
                                     "its lock when the inner one is released",
                                     ev.loc(), st.path())
                book = tuple(sorted(set(book) | {(c, k)}, key=repr))
        elif ev.kind == "fact":
            a = ev.args[0]
            if a[0] == "cmp" and a[1] == "in" and is_str(a[2]) and a[2][2] in self.names and a[3][0] == "attr":
                op = ((a[2][2],) if ev.args[1] == TRUE else ())
        elif ev.kind == "delitem":
            book = tuple(b for b in book if b != (ev.args[0], ev.args[1]))
        elif ev.kind == "mutate" and ev.name in ("pop", "clear"):
            book = tuple(b for b in book if b[0] != ev.args[0]
                         or (ev.name == "pop" and len(ev.args) > 1 and ev.args[1] != b[1]))
        elif ev.kind == "call":
            if ev.name in ("fs.unlink", "fs.rename", "fs.link") and ev.args:
                p = path_of(ev.args[-1] if ev.name != "fs.unlink" else ev.args[0], st)
                if any(last_is(p, x) for x in self.names):
                    self.unlink(ev.fr.func.qual if ev.fr else self.entry, ev, st)
            if refused and ev.name in UNTIL:
                self.ctx.finding("C07.refused", self.entry,
                                 "goes on changing things after a lock was refused "
                                 f"({refused})", ev.loc(), st.path())
        st.mon = (h, (op, book, refused, req))

    def unlink(self, where, ev, st):
        self.ctx.finding("C07.unlink", where, "a lock file is removed or replaced: processes that "
                         "opened it before and after do not exclude each other", ev.loc(),
                         st.path() if st else None)

    def done(self, out, exc):
        for x, st in [(None, s) for _, s in out] + list(exc):
            how = "an exception" if x else "a normal return"
            h, (op, book, refused, req) = st.mon
            self.ctx.saw("exit", f"{self.entry}: {how}")
            if h:
                self.ctx.finding("C07.release", self.entry,
                                 ", ".join(f"{n} ({m})" for n, m, _ in h) +
                                 f" is still held after {how}", "", st.path())
            if book:
                self.ctx.finding("C07.forgotten", self.entry,
                                 f"{show(book[0][1])} is still recorded as locked in "
                                 f"{show(book[0][0])} after {how}: the next operation of this "
                                 "process on the repository fails", "", st.path())
            if x is None and op and not self.entry.startswith("Job."):
                self.ctx.finding("C07.reentrant", self.entry, "the operation is done although this repository object "
                                 "holds the lock already, perhaps for less", "", st.path())
            if refused and x is None and not self.skips:
                self.ctx.finding("C07.refused", self.entry,
                                 f"the operation ends normally although its lock was refused "
                                 f"({refused})", "", st.path())
    skips = False


NET = {"Client.get_revs", "Client.touch_backup", "Client.put_tags", "Client.run_purge",
       "Client.from_conf", "Revision.to_dict", "Repository.find_by_uuid", "ClientManager.close",
       "Revision.write_info", "Revision.remove"}
FILE = {"File.__init__", "File.write", "File.read", "File.seek", "File.close", "File.flush",
        "File.truncate", "Store.purge", "Revision.get_parent", "Revision.write_info",
        "RBDDiffV1.integrate"}
BODY = {"CephRBD.create_snapshot", "CephRBD.verify",
        "RBDClient.image_reader", "CephRBD._delete_old_snapshots"}
ENTRIES = [
    ("RBDSource.backup", FILE | BODY), ("RBDSource.verify", FILE | {"RBDSource.open"}),
    ("RBDSource.gc", FILE), ("RBDSource.restore", FILE), ("RBDSource.restore_stdout", FILE),
    ("RBDSource.restore_file", FILE), ("FileSource.backup", FILE), ("FileSource.restore", FILE),
    ("FileSource.gc", FILE),
    ("Repository.rm", NET), ("Repository.expire", NET), ("Repository.tags", NET),
    ("Repository.distrust", NET), ("Repository._clean", NET),
    ("Job.pull_metadata", NET), ("Job.push_metadata", NET),
]


def check(ctx):
    ctx.rule("C07.release", "no repository lock is held when the operation has ended, normally or "
             "by an exception, and none is still recorded as held")
    ctx.rule("C07.nonblocking", "exclusive locks are refused at once, shared ones are waited for")
    ctx.rule("C07.mode", "the lock taken is of the kind asked for")
    ctx.rule("C07.refused", "a refused lock ends the operation with an error and without effects")
    ctx.rule("C07.reentrant", "a lock the same object already holds is not taken again")
    ctx.rule("C07.unlink", "lock files are never removed or replaced")
    for entry, opq in ENTRIES:
        m = Mon(ctx, entry)
        I, out, exc = ctx.run(entry, m, opaque=opq)
        m.done(out, exc)
    from ..common import local_events
    n = 0
    for f, ev in local_events(ctx.p, lambda e: e.kind == "call" and e.name in (
            "fs.unlink", "fs.rename", "fs.link")):
        n += 1
        p = ev.args[-1] if ev.name != "fs.unlink" else ev.args[0]
        if any(last_is(p, x) for x in Locks.names):
            ctx.finding("C07.unlink", f.qual, "a lock file is removed or replaced: processes that "
                        "opened it before and after do not exclude each other", ev.loc())
    ctx.saw("file removals", n)
    ctx.need("lock", 1)
    ctx.need("exit", 10)
