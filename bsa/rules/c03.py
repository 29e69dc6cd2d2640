"""Chunks are published whole, once, under the hash of their content."""
from ..interp import Monitor
from .util import *

EXISTS = ("fs.exists", "fs.isfile", "fs.stat")
HASH = "mmh3.hash_bytes"
CODEC = {"lzo.compress": "lzo.decompress"}


def hashes_of(t):
    return {s[2][0] for s in subterms(t) if s[0] == "app" and s[1] == HASH and s[2]}


class Mon(TmpFiles):
    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def is_chunk(self, p):
        return endswith(p, ".chunk.lzo") or any(
            s[0] == "attr" and s[2] == "store" for s in subterms(p))

    def direct(self, ev, st, I, path, how):
        if path[0] != "tmp" and self.is_chunk(path):
            self.ctx.finding("C03.atomic", self.entry,
                             f"chunk file {show(path)} is {how}: readers and later backups can "
                             "see a partial chunk under a valid name", ev.loc(), st.path())

    def event(self, ev, st, I):
        if ev.kind == "mutate" and ev.name == "add" and ev.args[0][0] == "attr" \
                and ev.args[0][2] == "seen":
            self.ctx.saw("seen mark", ev.where())
            h = ev.args[1]
            pub = st.mon[2]
            ok = any(mentions(p, h) for p in pub) or any(
                v and a[0] == "app" and a[1] in EXISTS and mentions(a, h) and a[2] and
                endswith(a[2][0], ".chunk.lzo")
                for a, v in st.facts.items())
            if not ok:
                self.ctx.finding("C03.seen-after-publish", self.entry,
                                 "a hash is recorded as stored before its chunk file exists",
                                 ev.loc(), st.path())
            elif h not in pub:
                st.mon = st.mon[:2] + (pub + (h,),)
        if ev.kind == "setattr" and ev.name == "clean" and ev.args[1] == TRUE:
            self.ctx.saw("clean mark", ev.where())
            self.stored(ev, st, "marks the chunk clean")
        super().event(ev, st, I)

    def stored(self, ev, st, what):
        if st.mon[2]:
            return
        for a, v in st.facts.items():
            if v and a[0] == "app" and a[1] in EXISTS and a[2] and \
                    endswith(a[2][0], ".chunk.lzo"):
                return
            if v and a[0] == "cmp" and a[1] == "in" and a[3][0] == "attr" and a[3][2] == "seen":
                return
            if v and a[0] == "attr" and a[2] == "clean":
                return
        self.ctx.finding("C03.stored", self.entry,
                         f"{what} on a path on which the chunk file was neither written nor "
                         "known to exist", ev.loc(), st.path())

    def publish(self, ev, st, I, src, dst, phase, payload, failed):
        c = self.ctx
        c.saw("chunk publish", f"{ev.where()}: {show(dst)[:80]}")
        if not self.is_chunk(dst):
            return
        if src[0] == "tmp" and dirname(dst) is not None and src[2] != dirname(dst) and (
                src[2] == NONE or src[2][0] == "c"):
            c.finding("C03.atomic", self.entry,
                      f"temporary chunk file in {show(src[2])} instead of the chunk's directory",
                      ev.loc(), st.path())
        if phase in ("dirty", "new"):
            c.finding("C03.atomic", self.entry,
                      "the chunk is renamed into place before its file was closed or flushed",
                      ev.loc(), st.path())
        if failed:
            c.finding("C03.atomic", self.entry,
                      "the chunk is renamed into place on a path on which writing it failed",
                      ev.loc(), st.path())
        if len(payload) == 1:
            w = payload[0]
            if w[0] == "app" and w[1] in CODEC and w[2]:
                src_data = w[2][0]
                hs = hashes_of(dst)
                if hs and src_data not in hs:
                    c.finding("C03.content-address", self.entry,
                              f"stored content is {show(src_data)} but the file is named after "
                              f"the hash of {', '.join(show(h) for h in hs)}",
                              ev.loc(), st.path())
                elif hs:
                    c.saw("content = hashed data", ev.where())
                elif basename(dst) is not None and dst[0] == "join" and \
                        any(s[0] == "attr" and s[2] == "hash" for s in subterms(dst)):
                    c.finding("C03.content-address", self.entry,
                              "the chunk is stored under a hash not computed from the data "
                              "being written", ev.loc(), st.path())
        elif len(payload) > 1 and len(set(payload)) != len(payload):
            c.finding("C03.content-address", self.entry, "content written twice",
                      ev.loc(), st.path())


class Purge(Monitor):
    """Removed chunks that are still considered stored."""

    def __init__(self, ctx):
        self.ctx = ctx

    def init(self):
        return (False, False)

    def event(self, ev, st, I):
        pend, done = st.mon
        if ev.kind == "call" and ev.name == "fs.unlink" and endswith(ev.args[0], ".chunk.lzo"):
            self.ctx.saw("purged chunk", ev.where())
            if pend:
                self.bad(st)
            st.mon = (not done, False)
        elif (ev.kind == "mutate" and ev.name in ("discard", "remove", "clear", "difference_update",
                                                  "intersection_update", "-=", "&=")
              and ev.args[0][0] == "attr" and ev.args[0][2] == "seen") or (
                ev.kind == "setattr" and ev.name == "seen"):
            st.mon = (False, not pend)

    def bad(self, st):
        self.ctx.finding("C03.purge-forgets", "Store.purge",
                         "a chunk is removed but its hash is still considered stored: it would "
                         "not be written again", "", st.path())


def check(ctx):
    ctx.rule("C03.purge-forgets", "a hash whose chunk is purged leaves Store.seen")
    pm = Purge(ctx)
    _, out, _ = ctx.run("Store.purge", pm)
    for _, st in out:
        if st.mon[0]:
            pm.bad(st)
    ctx.rule("C03.atomic", "a chunk file is written under a temporary name next to its target, "
             "closed, and renamed; never opened for writing under its final name, never "
             "renamed on an error path")
    ctx.rule("C03.content-address", "the bytes compressed into the file are the bytes whose "
             "hash names the file")
    ctx.rule("C03.seen-after-publish", "Store.seen only gets hashes whose file exists")
    ctx.rule("C03.stored", "flush() marks clean / returns a new hash only if the chunk file was "
             "written or is known to exist")
    ctx.rule("C03.hash-returned", "flush() returns the hash its chunk is stored under")
    m = Mon(ctx, "Chunk.flush")
    I, out, exc = ctx.run("Chunk.flush", m)
    for v, st in out:
        if v == NONE:
            continue
        ctx.saw("hash returned", show(v)[:80])
        for p in st.mon[2]:
            hp, hv = hashes_of(p), hashes_of(v)
            if hp and (not hv or not hv <= hp):
                ctx.finding("C03.hash-returned", "Chunk.flush",
                            f"returns {show(v)} but stored the chunk as {show(p)}", "", st.path())
    ctx.need("chunk publish", 1)
    ctx.need("content = hashed data", 1)
    ctx.need("seen mark", 1)
    ctx.need("clean mark", 1)
    ctx.need("hash returned", 1)
