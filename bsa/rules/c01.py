"""Data is durable before the metadata says the revision is complete."""
from ..interp import Monitor
from .util import *

FILE_OPS = {"write", "flush", "close", "truncate", "seek", "_flush_chunks"}


class Mon(Monitor):
    """(dirty, marked, published): dirty = backup data written since the last os.sync();
    marked = the stats of the revision carry a duration; published = that was written out."""

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return (False, False, False)

    def early(self, ev, st):
        if st.mon[2]:
            self.ctx.finding("C01.sync-before-complete", self.entry,
                             "backup data is written after the metadata that says that the revision is complete: a crash "
                             "in between leaves a complete revision without its data", ev.loc(), st.path())

    def event(self, ev, st, I):
        dirty, marked, published = st.mon
        n = ev.name
        if ev.kind in ("setitem", "mutate"):
            tgt, key = ev.args[0], ev.args[1] if len(ev.args) > 1 else NONE
            if key == C("duration") or (ev.kind == "mutate" and any(
                    s == C("duration") for a in ev.args[1:] for s in subterms(a))):
                marked = True
                self.ctx.saw("completion mark", f"{self.entry}: {ev.where()}")
        elif ev.kind == "call":
            if n == "os.sync":
                dirty = False
                self.ctx.saw("sync", f"{self.entry}: {ev.where()}")
            elif n.startswith("repo:") and n.split(".")[-2:][0] == "File" \
                    and n.split(".")[-1] in FILE_OPS:
                dirty = True
                self.early(ev, st)
                self.ctx.saw("data write", f"{self.entry}: {ev.where()} {n}")
            elif n in ("fs.copy", "fs.copyobj", "file.write", "fs.writefile"):
                p = ev.args[1] if n == "fs.copy" and len(ev.args) > 1 else path_of(ev.args[0], st)
                if p[0] != "tmp":
                    dirty = True
                    self.early(ev, st)
                    self.ctx.saw("data write", f"{self.entry}: {ev.where()} {n}")
            elif n == "fs.rename" and endswith(ev.args[1], ".rev") and marked:
                self.ctx.saw("completion published", f"{self.entry}: {ev.where()}")
                if dirty:
                    self.ctx.finding(
                        "C01.sync-before-complete", self.entry,
                        "the revision's metadata (with stats['duration'], i.e. complete) is "
                        "written while backup data written before has not been synced: after "
                        "a crash the revision counts as complete without its data",
                        ev.loc(), st.path())
                published = True
        st.mon = (dirty, marked, published)


def check(ctx):
    ctx.rule("C01.sync-before-complete",
             "on every path of backup(): between the last write of backup data and the "
             "rename that publishes a .rev carrying stats['duration'] there is an os.sync()")
    ctx.rule("C01.mark-published",
             "every path of backup() that returns a true value published the completion mark")
    for entry in ("RBDSource.backup", "FileSource.backup"):
        m = Mon(ctx, entry)
        I, out, exc = ctx.run(
            entry, m, opaque={
                "RBDSource.verify", "files_are_roughly_equal", "get_parent",
                "Repository.distrust", "RBDClient._rbd", "RBDClient._ceph_cli",
                "CephRBD._delete_old_snapshots", "CephRBD.create_snapshot",
                "RBDDiffV1.integrate", "Repository.add_report",
                "File.__init__", "File.write", "File.read", "File.seek", "File.close",
                "File.flush", "File.truncate", "RBDClient.map", "RBDClient.unmap"})
        ctx.saw("entry", f"{entry}: {len(out)} normal, {len(exc)} exceptional exits")
        if not any(entry in s for s in ctx.sites.get("completion published", ())):
            from ..loader import AnalysisError
            raise AnalysisError(f"{entry}: no completion mark is published")
    ctx.need("data write", 2)
    ctx.need("completion mark", 2)
