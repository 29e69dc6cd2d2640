"""Diff streams: every record applied where it says, or the stream rejected."""
from .c09 import difference
from .c32 import Bytes, Drive, Mixed, Raises, Undecided, attempt, opened, whole
from .util import *

STRIP = ("typed", "conv")


def bare(t):
    while t[0] in STRIP:
        t = t[1] if t[0] == "typed" else t[2]
    return t


def unpacked(t):
    """idx(struct.unpack(fmt, read), i) -> (fmt, read, i)"""
    t = bare(t)
    if t[0] == "idx" and is_c(t[2]) and t[1][0] == "app" and \
            t[1][1].split(".")[-1] in ("unpack", "unpack_from") and len(t[1][2]) >= 2:
        return cval(t[1][2][0]), t[1][2][1], t[2][2]
    return None


SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
ZERO = {(C(0), ">", False), (C(0), "==", True), (C(0), "!=", False), (C(0), "<=", True),
        (C(1), ">=", False), (C(1), "<", True)}
FMT = {"w": "QQ", "z": "QQ", "s": "Q", "f": "i", "t": "i"}


class Mon(Monitor):
    """(kind of the record being handled, applied, bytes left to read, chunk to
    be written, position of the target, {tell(): position})"""
    branches = True
    widens = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.types = set()
        self.settled = set()    # kinds of records there is a way past
        self.bodies = {}        # kind -> place where its handling starts

    def init(self):
        return (None, False, None, None, None, None)

    def on_widen(self, mon, names):
        k, done, left, chunk, pos, tell = mon
        return (k, done, names.get(left, left), names.get(chunk, chunk),
                names.get(pos, pos), None)

    # -- obligations
    def settle(self, ev, st, I, mon):
        kind, done, left, chunk, pos, tell = mon
        if kind not in ("w", "z", "s"):
            return
        loc = ev.loc() if ev is not None else ""
        what = {"w": "data", "z": "zero", "s": "size"}[kind]
        self.ctx.saw("record kinds", f"{self.entry}: {what}")
        self.settled.add(kind)
        if chunk is not None:
            self.bad("applied", what, "data read from the diff is not written", loc, st)
        elif kind == "w" and left is not None and not self.zero(left, st, I):
            self.bad("whole", what, "the next record is read (or the end is reached) before all "
                     f"data of the record was: {show(left)} is left", loc, st)
        elif not done and kind != "w":
            self.bad("applied", what, f"a {what} record has no effect on the target", loc, st)

    def zero(self, left, st, I):
        if left == C(0) or difference(left, C(0)) == {}:
            return True
        if I.truth(left, st) is False:
            return True
        for a, v in st.facts.items():
            if a[0] != "cmp":
                continue
            for x, op, y in ((a[2], a[1], a[3]), (a[3], SWAP.get(a[1], a[1]), a[2])):
                if bare(x) == left and (y, op, v) in ZERO:
                    return True
        return False

    def bad(self, rule, what, msg, loc, st):
        self.ctx.finding("C13." + rule, f"{self.entry}: {what} record", msg, loc, st.path())

    def target(self, t):
        t = bare(t)
        return t == ("sym", "target") or t[:2] == ("sym", "target")

    # -- events
    def event(self, ev, st, I):
        m = st.mon
        if ev.kind == "fact":
            a, v = ev.args[0], cval(ev.args[1])
            kind, done, left, chunk, pos, tell = m
            if left == ("size",):
                for x in (a, *(a[2:4] if a[0] == "cmp" else ())):
                    u = unpacked(x)
                    if u and u[2] == 1:
                        left = bare(x)
                        st.mon = m = (kind, done, left, chunk, pos, tell)
            if left is not None and self.zero(left, st, I):
                st.mon = m = (kind, done, C(0), chunk, pos, tell)
            if v and a[0] == "cmp" and a[1] == "==" and kind is not None:
                for x, y in ((a[2], a[3]), (a[3], a[2])):
                    if any(x == t or mentions(x, t) for t in self.types) and is_c(y) \
                            and x[0] in ("app", "typed", "conv") and y[2]:
                        k = y[2].decode() if isinstance(y[2], bytes) else str(y[2])
                        if kind == "?" or kind == k:
                            self.ctx.saw("record types", k)
                            self.bodies.setdefault(k, ev.loc())
                            st.mon = (k, done, left, chunk, pos, tell)
                            if kind == "?":
                                st.mon = (k, False, ("size",) if k == "w" else None, None,
                                          pos, tell)
            return
        if ev.kind != "call" or not ev.args and ev.result is None:
            return
        n = ev.name.split(".")[-1]
        if n == "read":
            self.read(ev, st, I)
        elif n in ("unpack", "unpack_from") and is_str(ev.args[0]):
            kind = m[0]
            if kind in FMT and ev.args[0][2].lstrip("<") != FMT[kind] \
                    and ev.args[0][2].lstrip("<") != FMT[kind].upper():
                self.bad("format", kind, f"the numbers of a '{kind}' record are read as "
                         f"{ev.args[0][2]}", ev.loc(), st)
        elif ev.args and self.target(ev.args[0]):
            self.effect(n, ev, st, I)
        elif ev.args and n == "fallocate":
            self.effect(n, ev, st, I)

    def read(self, ev, st, I):
        kind, done, left, chunk, pos, tell = st.mon
        size = bare(ev.args[-1]) if ev.args else None
        if size == C(1):
            self.settle(ev, st, I, st.mon)
            self.types.add(ev.result)
            st.mon = ("?", False, None, None, None, None)
            return
        if kind != "w" or size is None:
            return
        if left is not None and size[0] == "app" and size[1].startswith("struct.calcsize") \
                or size == C(16):
            return      # the header of the record
        if chunk is not None:
            self.bad("applied", "data", "data read from the diff is not written", ev.loc(), st)
        if left == ("size",):
            left = self.length(size)
        if left is not None:
            if size == left:
                left = C(0)
            elif size[0] == "app" and size[1] == "min" and left in size[2]:
                left = ("bin", "-", left, size)
            elif is_c(size):
                self.bad("whole", "data", f"{show(size)} bytes of data are read however long the "
                         "record is", ev.loc(), st)
                left = None
            else:
                left = None
        st.mon = (kind, done, left, ev.result, pos, tell)

    def length(self, size):
        """the length of the record a read size refers to"""
        cands = [bare(x) for x in ((size,) + tuple(size[2] if size[0] == "app" and
                                                    size[1] == "min" else ()))]
        for c in cands:
            if unpacked(c):
                return c
        return None if not cands or is_c(cands[0]) else None

    def number(self, t, i, what, rec, ev, st):
        u = unpacked(t)
        if u is not None and (u[2] != i or u[0].lstrip("<") != FMT[rec]):
            self.bad("place", rec, f"{what} of the record is taken from {show(t)}", ev.loc(), st)
            return False
        return True

    def at(self, rec, pos, ev, st):
        """the target is positioned at the offset of the record"""
        if pos is None or pos == ("last",):
            self.bad("place", rec, "the target is changed at the position the last record left "
                     "it at", ev.loc(), st)
        elif pos[0] not in ("seq", "end"):
            self.number(pos, 0, "the offset", rec, ev, st)

    def effect(self, n, ev, st, I):
        kind, done, left, chunk, pos, tell = st.mon
        if n == "seek":
            whence = ev.args[2] if len(ev.args) > 2 else C(0)
            p = bare(ev.args[1])
            if tell is not None and p == tell[0]:
                p = tell[1] or ("last",)
            if cval(whence) == 0:
                pos = p
            elif cval(whence) == 1 and p == C(0):
                pass
            else:
                pos = ("end",)
            tell = None
        elif n == "tell":
            tell = (ev.result, pos)
        elif n == "truncate":
            if kind == "s":
                self.number(ev.args[1] if len(ev.args) > 1 and ev.args[1] != NONE
                            else pos or C(0), 0, "the size", "size", ev, st) \
                    if (len(ev.args) > 1 and ev.args[1] != NONE) or pos is not None else \
                    self.bad("place", "size", "the target is cut at its current position",
                             ev.loc(), st)
                done = True
        elif n == "write":
            x = ev.args[1]
            if kind == "w":
                if chunk is None:
                    pass
                elif not (x == chunk or mentions(x, chunk)):
                    self.bad("applied", "data", f"{show(x)} is written instead of the data read",
                             ev.loc(), st)
                elif x[0] in ("slice", "idx"):
                    self.bad("applied", "data", "only a part of the data read is written",
                             ev.loc(), st)
                self.at("data", pos, ev, st)
                chunk, done, pos = None, True, ("seq",)
            elif kind == "z":
                self.at("zero", pos, ev, st)
                if x[0] == "bin" and x[1] == "*" and C(b"\0") in x[2:]:
                    ln = x[2] if x[3] == C(b"\0") else x[3]
                    self.number(ln, 1, "the length", "zero", ev, st)
                elif is_c(x) and set(x[2]) - {0, "\0"}:
                    self.bad("place", "zero", f"{show(x)} is written", ev.loc(), st)
                done, pos = True, ("seq",)
        elif n == "fallocate":
            if kind == "z" and len(ev.args) >= 4:
                off = bare(ev.args[-2])
                if tell is not None and off == tell[0]:
                    off = tell[1]
                self.at("zero", off, ev, st)
                self.number(ev.args[-1], 1, "the length", "zero", ev, st)
                done = True
        st.mon = (kind, done, left, chunk, pos, tell)

    def on_throw(self, exc, st, I):
        # a hole that could not be punched is not there
        e = I.last_event
        if e is not None and e.kind == "call" and e.name.split(".")[-1] == "fallocate":
            kind, done, left, chunk, pos, tell = st.mon
            st.mon = (kind, False, left, chunk, pos, tell)


FMT["data"], FMT["zero"], FMT["size"] = "QQ", "QQ", "Q"


# ------------------------------------------------------------ whole streams
class Tape(Bytes):
    """a diff stream and a target with constant content"""

    def __init__(self, *a):
        super().__init__(*a)
        import struct

        def calcsize(I, A, kw, st):
            try:
                return C(struct.calcsize(A[0][2])) if len(A) == 1 and is_str(A[0]) else None
            except struct.error:
                return None

        def unpack(I, A, kw, st):
            if len(A) != 2 or not is_c(A[0]) or not is_c(A[1]) or not isinstance(A[1][2], bytes):
                return None
            try:
                return ("tuple", tuple(C(x) for x in struct.unpack(A[0][2], A[1][2])))
            except struct.error:
                I.throw(("exc", "error", True), st)
                return []
        def decode(I, A, kw, st):
            if not is_c(A[0]) or not isinstance(A[0][2], bytes) or not all(map(is_c, A[1:])):
                return None
            try:
                return C(A[0][2].decode(*[a[2] for a in A[1:]], **{k: v[2] for k, v in kw.items()}))
            except UnicodeDecodeError:
                I.throw(("exc", "UnicodeDecodeError", True), st)
                return []
        self.ext.update({".decode": decode, "struct.calcsize": calcsize, "struct.unpack": unpack,
                         "fallocate": lambda I, A, kw, st: self.refuse(I, st),
                         "backy.utils.fallocate": lambda I, A, kw, st: self.refuse(I, st)})

    @staticmethod
    def refuse(I, st):
        # chunked files have no file descriptor
        I.throw(("exc", "OSError", True), st)
        return []


def rec(kind, *args):
    import struct
    if kind in "ft":
        return kind.encode() + struct.pack("<i", len(args[0])) + args[0].encode()
    if kind == "s":
        return b"s" + struct.pack("<Q", args[0])
    if kind == "w":
        return b"w" + struct.pack("<QQ", args[0], len(args[1])) + args[1]
    if kind == "z":
        return b"z" + struct.pack("<QQ", *args)
    return kind.encode()


HEAD = b"rbd diff v1\n"
NAMES = (("f", "old"), ("t", "new"))
BASE = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ"
# length before, records
STREAMS = [
    (9, (("s", 9),)),
    (9, (("s", 12),)),
    (9, (("s", 5),)),
    (0, (("s", 6), ("w", 0, b"abcdef"))),
    (9, (("s", 9), ("w", 3, b"xyz"))),
    (9, (("s", 9), ("w", 2, b"0123456"), ("w", 1, b"!"))),
    (9, (("s", 9), ("z", 0, 2))),
    (9, (("s", 9), ("z", 3, 6))),
    (9, (("s", 9), ("z", 2, 5), ("w", 4, b"ab"))),
    (9, (("s", 9), ("w", 4, b"abcd"), ("z", 5, 2))),
    (9, (("s", 14), ("z", 9, 5), ("w", 12, b"ab"))),
    (9, (("s", 14), ("w", 13, b"e"))),
    (9, (("s", 4), ("w", 1, b"bc"))),
    (12, (("s", 12), ("z", 0, 4), ("z", 8, 4), ("w", 4, b"abcd"))),
    (12, (("s", 8), ("w", 0, b"abcdefgh"))),
    (4, (("s", 4), ("w", 0, b"\0\0\0\0"))),
    (13, (("s", 13), ("w", 1, b"abcdefghijk"), ("z", 12, 1))),
]


def applied(n, records):
    d = bytearray(BASE[:n])
    for r in records:
        if r[0] == "s":
            d = (d + b"\0" * r[1])[:r[1]]
        elif r[0] == "w":
            d[r[1]:r[1] + len(r[2])] = r[2]
        elif r[0] == "z":
            d[r[1]:r[1] + r[2]] = b"\0" * r[2]
    return bytes(d)


def stream(ctx, data, n):
    """integrate() of a stream into an image of n bytes -> the image"""
    d = opened(ctx, BASE[:n] if n else None, "rw", Tape)
    tape = ("obj", ("io", "diff"), "bytesio")
    diff = ("obj", ("io", "rbddiff"), ctx.p.cls("RBDDiffV1").qual)
    d.st = d.st.copy()
    d.st.heap[(tape, "#data")], d.st.heap[(tape, "#pos")] = C(data), C(0)
    x = Drive(ctx, "RBDDiffV1", d.mon, d.h)
    x.o, x.st = diff, d.st
    x.call("__init__", tape)
    x.call("integrate", d.o, C("old"), C("new"))
    # (a chunk that cannot be read is another matter)
    sure = [e for e in x.sure if not e[1].endswith("BackendException")]
    if sure:
        raise Undecided(f"raises {sure[0][1]} on some paths")
    d.st = x.st
    return d


def streams(ctx):
    e = "RBDDiffV1.integrate"
    if not all(ctx.p.try_method("RBDDiffV1", n) for n in ("__init__", "integrate")):
        return
    for n, records in STREAMS:
        data = HEAD + b"".join(rec(*r) for r in NAMES + records) + b"e"
        case = f"an image of {n} bytes and {' '.join(str(r) for r in records)}"

        def body():
            try:
                d = stream(ctx, data, n)
            except Mixed as e:
                if e.sure:
                    return f"is rejected with {e.sure[0]}"
                raise
            want = applied(n, records)
            got = whole(d)
            if got != ("c", want):
                return f"the image is {got[1]} instead of {want}"
        attempt(ctx, "C13.result", case, e, body)
    # the records before the data in another order
    n, records = STREAMS[8]
    for names, at in ((NAMES, 0), (NAMES, 1), (NAMES[::-1], 2), (NAMES[::-1], 0)):
        before = names[:at] + records[:1] + names[at:]
        data = HEAD + b"".join(rec(*r) for r in before + records[1:]) + b"e"

        def body():
            try:
                d = stream(ctx, data, n)
            except Mixed as e:
                if e.sure:
                    return f"is rejected with {e.sure[0]}"
                raise
            got = whole(d)
            if got != ("c", applied(n, records)):
                return f"the image is {got[1]} instead of {applied(n, records)}"
        attempt(ctx, "C13.result", "a stream that begins with " + " ".join(r[0] for r in before), e, body)
    full = HEAD + b"".join(rec(*r) for r in NAMES + STREAMS[8][1])
    bad = {f"cut after {k} bytes": full[:k] for k in range(0, len(full) + 1)}
    bad["another header"] = b"rbd diff v2\n" + full[len(HEAD):] + b"e"
    bad["a record of an unknown type"] = full + b"x" + b"e"
    bad["a record of an unknown type first"] = HEAD + b"q" + full[len(HEAD):] + b"e"
    bad["another old snapshot"] = full.replace(b"old", b"oldx"[1:]) + b"e"
    bad["another new snapshot"] = full.replace(b"new", b"ewn") + b"e"
    for case, data in bad.items():
        def body():
            try:
                stream(ctx, data, 9)
            except (Raises, Mixed):
                return None
            return "is accepted"
        attempt(ctx, "C13.end", "a stream with " + case if not case.startswith("cut") else
                "a stream " + case, e, body)


def check(ctx):
    ctx.rule("C13.result", "whole streams applied to images of a few chunks give what they say (constant "
             "propagation)")
    streams(ctx)
    ctx.rule("C13.applied", "every size, data and zero record has its effect on the target before "
             "the next record is read, and all data read is written")
    ctx.rule("C13.whole", "all data of a record is read before the next record")
    ctx.rule("C13.place", "data and zeros go to the offset and have the length the record says; "
             "the target gets the size the record says")
    ctx.rule("C13.format", "the numbers of records have the width of the diff format")
    ctx.rule("C13.end", "a stream is accepted only with its header and its end record")
    from ..interp import State
    e = "RBDDiffV1.integrate"
    m = Mon(ctx, e)
    st = State(mon=m.init())
    me = ("sym", "self", ("cls", ctx.p.cls("RBDDiffV1").qual))
    st.heap[(me, "phase")] = C("metadata")
    st.heap[(me, "_streaming")] = FALSE
    I, out, exc = ctx.run(e, m, st=st)
    for v, st in out:
        kind = st.mon[0]
        ctx.saw("ends", f"{e}: {kind}")
        m.settle(None, st, I, st.mon)
        if kind != "e":
            ctx.finding("C13.end", e, "a stream is accepted although its end record was not read "
                        + ("(a record of an unknown type ends it)" if kind == "?" else
                           f"(last record: {kind})"), "", st.path())
    for k in sorted(m.bodies):
        if k in FMT and k in "wzs" and k not in m.settled:
            what = {"w": "data", "z": "zero", "s": "size"}[k]
            ctx.finding("C13.applied", f"{e}: {what} record", f"a diff with a {what} record is "
                        "always rejected", m.bodies[k])
    header(ctx)
    ctx.need("record types", 1)
    ctx.need("ends", 1)


class Header(Monitor):
    branches = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.res = set()

    def init(self):
        return None     # what was found out about the header

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name.split(".")[-1] == "read":
            self.res.add(ev.result)
            st.mon = "read"
        elif ev.kind == "fact" and self.res:
            a, v = ev.args[0], cval(ev.args[1])
            if a[0] == "cmp" and a[1] in ("==", "!=") and any(mentions(a, r) for r in self.res):
                st.mon = "checked" if (a[1] == "==") == v else ev.loc()
            elif a[0] == "app" and "startswith" in a[1] and any(mentions(a, r) for r in self.res):
                st.mon = "checked" if v else ev.loc()


def header(ctx):
    e = "RBDDiffV1.__init__"
    m = Header(ctx)
    I, out, exc = ctx.run(e, m)
    ctx.saw("ends", e)
    for v, st in out:
        if st.mon != "checked":
            ctx.finding("C13.end", e, "a stream is accepted although its header was not found to "
                        "be that of a diff", st.mon if ":" in str(st.mon) else "", st.path())
