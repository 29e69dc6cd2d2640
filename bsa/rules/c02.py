"""Metadata files are replaced atomically and durably."""
from ..common import local_events
from .util import *

TARGETS = (".rev", ".report")


class Mon(TmpFiles):
    def __init__(self, ctx, entry, sync=True):
        self.ctx, self.entry, self.sync = ctx, entry, sync

    def direct(self, ev, st, I, path, how):
        self.ctx.finding("C02.in-place", self.entry,
                         f"{show(path)} is {how}: a crash leaves a torn file where readers "
                         "expect metadata; write a temporary file and rename it",
                         ev.loc(), st.path())

    def publish(self, ev, st, I, src, dst, phase, payload, failed):
        c = self.ctx
        c.saw("publish", f"{self.entry} -> {show(dst)}")
        if src[0] != "tmp":
            c.finding("C02.in-place", self.entry,
                      f"{show(dst)} is replaced by {show(src)}, which is not a fresh "
                      "temporary file", ev.loc(), st.path())
            return
        d = dirname(dst)
        if src[2] == NONE:
            c.finding("C02.same-directory", self.entry,
                      "the temporary file is created in the system's temporary directory, "
                      "so the rename is not atomic", ev.loc(), st.path())
        elif d is not None and src[2] != d and src[2][0] in ("join", "attr", "sym", "c"):
            c.finding("C02.same-directory", self.entry,
                      f"temporary file in {show(src[2])}, target in {show(d)}",
                      ev.loc(), st.path())
        if phase in ("dirty", "flushed"):
            c.finding("C02.sync-before-rename", self.entry,
                      f"{show(dst)} is renamed into place while its content is only "
                      + ("in the process' buffer" if phase == "dirty" else "in the page cache")
                      + " (no flush + fsync before the rename)", ev.loc(), st.path())
        if phase == "new":
            c.finding("C02.publish-content", self.entry,
                      f"an empty file is renamed to {show(dst)}", ev.loc(), st.path())
        if failed:
            c.finding("C02.no-publish-on-error", self.entry,
                      f"{show(dst)} is replaced although writing the new content failed",
                      ev.loc(), st.path())


ENTRIES = [
    ("Revision.write_info", ".rev", {"Revision.get_parent"}),
    ("ProblemReport.store", ".report", set()),
    ("ChunkMismatchReport._store_chunk", None, set()),
    ("CmdLineSource.store", "config", set()),
]


def check(ctx):
    ctx.rule("C02.in-place", "no metadata path is opened for writing, copied to or written "
             "other than through a temporary file and a rename")
    ctx.rule("C02.same-directory", "the temporary file lives in the target's directory")
    ctx.rule("C02.sync-before-rename", "write* ; flush ; fsync before the rename, on every path")
    ctx.rule("C02.no-publish-on-error", "no rename on a path on which an operation failed")
    ctx.rule("C02.publishes", "a normal return of the writer has replaced the target")
    for entry, suffix, opq in ENTRIES:
        m = Mon(ctx, entry)
        I, out, exc = ctx.run(entry, m, opaque=opq)
        for v, st in out:
            pub = st.mon[2]
            if any(v and a[0] == "app" and a[1] == "fs.exists" and suffix and any(
                    endswith(x, suffix) for x in a[2]) for a, v in st.facts.items()):
                continue        # it is there already and its content is keyed by its name
            if suffix and not any(endswith(p, suffix) or last_is(p, suffix) for p in pub):
                ctx.finding("C02.publishes", entry,
                            f"returns normally without having replaced its *{suffix} file",
                            "", st.path())
        if not any(s.startswith(entry) for s in ctx.sites.get("publish", ())):
            ctx.finding("C02.publishes", entry, "never renames a file into place")
    # nobody else writes metadata files
    for f, ev in local_events(ctx.p, lambda e: e.kind == "call" and e.name in (
            "fs.open", "fs.writefile", "fs.copy", "fs.rename", "fs.touch", "fs.link")):
        n = ev.name
        if n == "fs.open" and not is_write_mode(ev.args[1]):
            continue
        p = ev.args[1] if n in ("fs.copy", "fs.rename", "fs.link") and len(ev.args) > 1 else ev.args[0]
        ctx.saw("file-creating call", f"{f.qual} {n} {show(p)[:60]}")
        if n in ("fs.rename",) and ev.args[0][0] == "tmp":
            continue
        if any(endswith(p, s) for s in TARGETS):
            ctx.finding("C02.in-place", f.qual,
                        f"{n} creates or changes {show(p)} directly", ev.loc())
    ctx.need("publish", 4)
    ctx.need("file-creating call", 6)
