"""Chunk data read from disk is verified against its hash before use."""
from ..interp import Monitor
from ..models import exc_ancestors
from .util import *

HASH = "mmh3.hash_bytes"
READ = {"file.read", "file.readline", "fs.readfile", "lzo.decompress"}


def from_disk(t):
    return [s for s in subterms(t) if s[0] == "app" and s[1] in
            ("file.read", "fs.readfile", "file.readinto")]


def content(t):
    """The bytes a buffer was made of."""
    if t[0] == "app" and t[1] in ("io.BytesIO", "bytearray", "bytes", "memoryview") and t[2]:
        return content(t[2][0])
    if t[0] == "typed":
        return content(t[1])
    return t


class Mon(Monitor):
    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def init(self):
        return None

    def on_throw(self, exc, st, I):
        e = getattr(I, "last_event", None)
        if e is not None and (e.name in READ or e.name == "fs.open"):
            st.mon = e.name

    def event(self, ev, st, I):
        if ev.kind == "handler":
            st.mon = None
        if ev.kind == "setattr" and ev.name == "data":
            val = ev.args[1]
            if not from_disk(val):
                return
            self.ctx.saw("chunk data taken from disk", ev.where())
            data = content(val)
            if not any(s[0] == "app" and s[1] == "lzo.decompress" for s in subterms(data)):
                self.ctx.finding("C04.verified", self.entry,
                                 "the raw file content is used as chunk data", ev.loc(), st.path())
            for a, v in st.facts.items():
                if a[0] == "cmp" and a[1] in ("==", "is") and v:
                    for x, y in ((a[2], a[3]), (a[3], a[2])):
                        if any(s[0] == "app" and s[1] == HASH and s[2] and s[2][0] == data
                               for s in subterms(x)) and y[0] == "attr" and y[2] == "hash":
                            return
            self.ctx.finding("C04.verified", self.entry,
                             "data read from the store is handed out on a path on which its "
                             "hash was not found equal to the chunk's", ev.loc(), st.path())


def check(ctx):
    ctx.rule("C04.verified", "the chunk's buffer is filled from its file only on paths on which "
             "hash(decompressed content) == self.hash is known")
    ctx.rule("C04.typed-failure", "open/read/decompress/hash failures of a chunk leave read() as "
             "BackendException, which is what callers act on")
    for entry in ("Chunk.read", "Chunk.write"):
        m = Mon(ctx, entry)
        I, out, exc = ctx.run(entry, m)
        for e, st in exc:
            anc = exc_ancestors(e[1], ctx.p)
            backend = any(a.endswith(".BackendException") for a in anc)
            if backend:
                ctx.saw("BackendException", f"{entry} {e[1]}")
            elif st.mon in READ or st.mon == "fs.open":
                if e[1] in ("OSError", "lzo.error"):
                    ctx.finding("C04.typed-failure", entry,
                                f"{e[1]} raised by {st.mon} escapes unconverted: callers only "
                                "handle BackendException", "", st.path())
        if not any(s.startswith(entry) for s in ctx.sites.get("BackendException", ())):
            ctx.finding("C04.typed-failure", entry, "no BackendException can leave the function: "
                        "corrupt or missing chunks are not reported")
    ctx.need("chunk data taken from disk", 1)
