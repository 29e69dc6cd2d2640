"""Every effect on a repository happens under the lock that protects it."""
from .util import *

LEVEL = {None: 0, "SH": 1, "EX": 2}
DATA_W = {"File.write", "File.flush", "File.truncate"}
DATA_R = {"File.read"}


def fresh_uuid(p):
    """The path of a revision created on this very path of the program."""
    return any(s[0] == "app" and s[1] in ("shortuuid.uuid", "uuid.uuid4") for s in subterms(p))


def is_chunk(p):
    return endswith(p, ".chunk.lzo")


def is_rev(p):
    return endswith(p, ".rev")


class Mon(Locks):
    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def require(self, ev, st, what, alts):
        self.ctx.saw(what, f"{self.entry}: {ev.where()}")
        held = self.held(st)
        for need in alts:
            if all(LEVEL[held.get(n)] >= LEVEL[m] for n, m in need.items()):
                return
        word = {"SH": "shared", "EX": "exclusive"}
        text = " or ".join(" and ".join(f"{n} ({word[m]})" for n, m in need.items())
                           for need in alts)
        have = ", ".join(f"{n} ({word[m]})" for n, m in held.items()) or "no lock"
        self.ctx.finding(f"C06.{what.replace(' ', '-')}", self.entry,
                         f"{what} needs {text}; {have} held", ev.loc(), st.path())

    def effect(self, ev, st, I):
        if ev.kind != "call":
            return
        n = ev.name
        if n in ("fs.rename", "fs.link"):
            p = ev.args[1]
            if is_chunk(p):
                self.require(ev, st, "chunk write", [{".purge": "SH"}])
            elif is_rev(p) and not fresh_uuid(p):
                self.require(ev, st, "revision metadata change",
                             [{".backup": "EX"}, {".purge": "SH"}] if "verify" in self.entry
                             else [{".backup": "EX"}])
        elif n == "fs.unlink":
            p = ev.args[0]
            if is_rev(p) and not fresh_uuid(p):
                self.require(ev, st, "revision removal",
                             [{".backup": "EX"}, {".purge": "SH"}] if "verify" in self.entry
                             else [{".backup": "EX"}, {".purge": "EX"}])
            elif is_chunk(p):
                self.require(ev, st, "chunk removal", [{".purge": "SH"}])
            elif self.entry.endswith("Source.gc") and not last_is(p, ".purge_pending") and elems(p):
                self.require(ev, st, "purge of unused data", [{".purge": "EX"}])
        elif n == "repo:backy.rbd.chunked.store.Store.purge":
            self.require(ev, st, "purge of unused chunks", [{".purge": "EX"}])
        elif n.startswith("repo:") and ".".join(n.split(".")[-2:]) in DATA_W:
            self.require(ev, st, "data write", [{".backup": "EX", ".purge": "SH"}])
        elif n.startswith("repo:") and ".".join(n.split(".")[-2:]) in DATA_R:
            self.require(ev, st, "data read", [{".purge": "SH"}])
        elif n == "fs.open" and is_chunk(ev.args[0]):
            self.require(ev, st, "chunk read", [{".purge": "SH"}])
        elif n == "fs.copy" and len(ev.args) > 1:
            for i, w in ((0, "data read"), (1, "data write")):
                p = ev.args[i]
                if p[0] == "join" and any(s[0] == "attr" and s[2] == "repository"
                                          for s in subterms(p)):
                    self.require(ev, st, w, [{".purge": "SH"}] if i == 0 else
                                 [{".backup": "EX", ".purge": "SH"}])


FILE = {"File.write", "File.read", "File.seek", "File.close", "File.flush", "File.truncate"}
CEPH = {"RBDClient._rbd", "RBDClient._ceph_cli", "CephRBD._delete_old_snapshots",
        "CephRBD.create_snapshot", "RBDClient.map", "RBDClient.unmap",
        "files_are_roughly_equal"}
META = {"Revision.get_parent"}
NET = {"Client.get_revs", "Client.touch_backup", "Client.put_tags", "Client.run_purge",
       "Client.from_conf", "Revision.to_dict", "Repository.find_by_uuid", "ClientManager.close"}
ENTRIES = [
    ("RBDSource.backup", FILE | CEPH | META | {"RBDSource.verify", "RBDDiffV1.integrate",
                                               "File.__init__", "Repository.add_report"}),
    ("RBDSource.verify", META | {"Store.purge", "File.__init__", "File.close"}),
    ("RBDSource.gc", META | {"Store.purge", "File.__init__"}),
    ("RBDSource.restore", FILE | META | {"File.__init__"}),
    ("RBDSource.restore_file", FILE | META),
    ("RBDSource.restore_stdout", FILE | META),
    ("FileSource.backup", META), ("FileSource.restore", META), ("FileSource.gc", META),
    ("Repository.rm", META), ("Repository.expire", META), ("Repository.tags", META),
    ("Repository.distrust", META), ("Repository._clean", META),
    ("Command.backup", META | {"BackyDaemon._read_config"}),
    ("Command.rm", META), ("Command.distrust", META), ("Command.tags", META),
    ("Command.gc", META),
    ("BackyAPI.put_tags", META), ("BackyAPI.run_purge", META), ("BackyAPI.get_revs", META),
    ("Job.run_expiry", META), ("Job.run_backup", META), ("Job.push_metadata", META | NET),
    ("Job.pull_metadata", META | NET),
]


class Fresh(Locks):
    """user state: the revisions were read since the lock was taken"""
    reads = ("history", "local_history", "clean_history")

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init2(self):
        return False

    def acquired(self, ev, st, I, name, mode, blocking):
        pass

    def effect(self, ev, st, I):
        h, scanned = st.mon
        if ev.kind == "call" and ev.name.endswith(("Repository.scan", "Repository.connect")):
            st.mon = (h, self.held(st).get(".backup") == "EX")
        elif ev.kind in ("call", "enter") and ev.name.endswith((
                "Revision.write_info", "Revision.remove")) or ev.kind == "setattr" and ev.name in ("tags", "trust") \
                and ev.args[0][0] != "obj":
            self.ctx.saw("changes to revisions", f"{self.entry}: {ev.where()}")
            if not scanned:
                self.ctx.finding("C06.fresh", self.entry, "revisions are changed that were not read again after the "
                                 "lock was taken: what another process changed in the meantime is undone",
                                 ev.loc(), st.path())
        elif ev.kind == "call" and ev.name == "flock" and not self.held(st):
            st.mon = (h, False)


def check(ctx):
    ctx.rule("C06.fresh", "expiry, changing tags and cleaning up read the revisions again once they have the lock")
    for entry in ("Repository.expire", "Repository.tags", "Repository._clean"):
        if ctx.p.try_method(*entry.split(".")):
            ctx.run(entry, Fresh(ctx, entry), opaque={
                "Repository.scan", "Repository.connect", "Repository.find_revisions", "Revision.write_info",
                "Revision.remove"})
    ctx.rule("C06.data", "backup data and chunks are written under .backup (exclusive) and .purge "
             "(shared), read under .purge (shared)")
    ctx.rule("C06.metadata", "existing revisions are changed or removed under .backup (exclusive) "
             "(verification: under .purge)")
    ctx.rule("C06.purge", "unused chunks are removed under .purge (exclusive)")
    for entry, opq in ENTRIES:
        ctx.run(entry, Mon(ctx, entry), opaque=opq)
    for w in ("chunk read", "chunk removal", "revision metadata change", "revision removal",
              "purge of unused chunks", "data write", "data read"):
        ctx.need(w)
