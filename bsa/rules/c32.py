"""The chunked file maps positions to chunks as a file does.

The chunk size is analysed as 4 (positions matter only by their place in a
chunk, lengths by the chunks they reach into), the store as an association of
hashes and contents. Each operation of File and Chunk is analysed with constant
propagation from one abstract state per class of positions and lengths; the
folded outcome is compared with what the operation means."""
import itertools
import re

from ..interp import Budget, State
from .util import *
from .c31 import Heap, Times, value, _fold

CS = 4
FULL = 4 * 1024 ** 2


def _bytes(t):
    return is_c(t) and isinstance(t[2], (bytes, bytearray))


def _int(t):
    return is_c(t) and isinstance(t[2], int)


def _name(data):
    return "H_" + data.hex()


# io.BytesIO: state ("#data", "#pos")
def _new(I, A, kw, st):
    if kw or A and not _bytes(A[0]):
        return None
    n = 0
    while (("obj", ("io", n), "bytesio"), "#data") in st.heap:
        n += 1
    o = ("obj", ("io", n), "bytesio")
    st.heap[(o, "#data")] = A[0] if A else C(b"")
    st.heap[(o, "#pos")] = C(0)
    return o


def _io(f):
    def g(I, A, kw, st):
        o = A[0]
        d, p = st.heap.get((o, "#data")), st.heap.get((o, "#pos"))
        if d is None or not _bytes(d) or not _int(p) or kw or not all(is_c(a) for a in A[1:]):
            return None
        r = f(d[2], p[2], *[a[2] for a in A[1:]])
        if r is None:
            return None
        res, d2, p2 = r
        st.heap[(o, "#data")], st.heap[(o, "#pos")] = C(bytes(d2)), C(p2)
        return C(res)
    return g


def _seek(d, p, off, whence=0):
    q = {0: off, 1: p + off, 2: len(d) + off}.get(whence)
    return None if q is None or q < 0 else (q, d, q)


def _read(d, p, n=-1):
    r = d[p:] if n is None or n < 0 else d[p:p + n]
    return r, d, p + len(r)


def _write(d, p, x):
    d = d + b"\0" * (p - len(d))
    return len(x), d[:p] + x + d[p + len(x):], p + len(x)


def _truncate(d, p, n=None):
    n = p if n is None else n
    return n, d[:n], p


IO = {("bytesio", "seek"): _io(_seek), ("bytesio", "read"): _io(_read), ("bytesio", "write"): _io(_write),
      ("bytesio", "getvalue"): _io(lambda d, p: (d, d, p)), ("bytesio", "tell"): _io(lambda d, p: (p, d, p)),
      ("bytesio", "getbuffer"): _io(lambda d, p: (d, d, p)), ("bytesio", "truncate"): _io(_truncate),
      ("bytesio", "close"): _io(lambda d, p: (None, d, p))}


class Bytes(Times):
    """ext: the library as far as chunks need it"""
    const = {FULL: CS}

    def __init__(self, meta=None, exists=False):
        self.meta = meta
        self.ext = dict(Times.ext)
        self.ext.update(IO)
        self.ext.update({
            "io.BytesIO": _new, "lzo.decompress": self.stored, "os.path.exists": lambda I, A, kw, st: C(exists),
            "json.load": self.load, "json.dump": self.dump, "json.dumps": self.dump, "json.loads": self.load,
            "int": self.int_, "bytes": _fold(bytes), "len": _fold(len), "bytearray": None})
        del self.ext["bytearray"]

    def stored(self, I, A, kw, st):
        terms = list(subterms(A[0]))
        terms += [x for f in terms if (f, "#path") in st.heap for x in subterms(st.heap[(f, "#path")])]
        found = [m for s in terms if is_str(s) for m in re.findall("H_([0-9a-f]*)", s[2])]
        if found:
            return C(bytes.fromhex(max(found, key=len)))
        return None

    @staticmethod
    def int_(I, A, kw, st):
        try:
            return C(int(*[a[2] for a in A])) if A and all(map(is_c, A)) and not kw else None
        except (ValueError, TypeError):
            return None

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name == "fs.open" and len(ev.args) > 1 and is_write_mode(ev.args[1]) or \
                ev.kind == "call" and ev.name in ("fs.writefile", "proc.spawn"):
            st.heap[(("sym", "written", None), "opened")] = TRUE

    def load(self, I, A, kw, st):
        if not self.meta:
            return None
        mapping, size = self.meta
        h = Heap()
        m = h.dict({str(k): C(v) for k, v in mapping.items()})
        o = h.dict({"mapping": m, "size": C(size)})
        ren = {m: ("obj", ("json", 1), "dict"), o: ("obj", ("json", 2), "dict")}
        for (x, k), v in h.h.items():
            st.heap[(ren[x], k)] = tuple((a, ren.get(b, b)) for a, b in v)
        return ren[o]

    def dump(self, I, A, kw, st):
        v = value(A[0], st)
        st.heap[(("sym", "written", None), "meta")] = C(v) if v is not None else NONE
        return NONE


class Undecided(Exception):
    pass


class Mixed(Undecided):
    """no path returns"""

    def __init__(self, msg, sure):
        super().__init__(msg)
        self.sure = [e[1] for e in sure if not e[1].endswith("BackendException")]


def _hash(I, fv, args, kw, st, node, fr):
    a = list(args) + list(kw.values())
    return [(C(_name(a[0][2])), st)] if len(a) == 1 and _bytes(a[0]) else None


class Drive:
    """A sequence of operations on one abstract object"""

    def __init__(self, ctx, cls, mon, heap=None):
        self.ctx, self.cls, self.mon = ctx, cls, mon
        self.h = heap or Heap()
        self.o = self.h.new(ctx.p.cls(cls).qual)
        self.st = self.h.state(mon)

    def call(self, name, *args, **opts):
        f = self.ctx.p.try_method(self.cls, name)
        if f is None:
            raise Undecided(f"no {self.cls}.{name}")
        ps = f.params()[1:]
        a = {p: x for p, x in zip(ps, args)}
        # defaults of the others
        d = dict(zip(ps[len(ps) - len(f.node.args.defaults):], f.node.args.defaults))
        for p in ps[len(args):]:
            if p in opts:
                a[p] = opts[p]
            elif p in d:
                a[p] = default(self.ctx, f, d[p])
            else:
                raise Undecided(f"{self.cls}.{name}: parameter {p}")
        try:
            I, out, exc = self.ctx.run(f, self.mon, st=self.st, args=a, self_val=self.o, lookup=False, scan=False,
                                       max_steps=8000, subst={"backy.rbd.chunked.chunk.hash": _hash})
        except Budget:
            raise Undecided("too many paths")
        keep = {}
        for v, st in out:
            k = (v, st.key())
            keep[k] = (v, st)
        vals = {value(v, st) if v[0] == "obj" else v for v, st in out}
        if not out:
            sure = [e for e, _ in exc if e[0] == "exc" and e[2]]
            if len(sure) == len(exc) and exc:
                raise Raises(sure[0][1], exc[0][1])
            raise Mixed(f"raises {[e for e, _ in exc][:2]}", sure)
        self.sure = [e for e, _ in exc if e[0] == "exc" and e[2]]
        if len(vals) > 1:
            raise Undecided(f"{name}: {len(vals)} answers: {[show(v)[:60] for v, _ in out][:3]}")
        self.st = out[0][1]
        self.all = out
        v = out[0][0]
        r = value(v, self.st)
        if r is None and v[0] != "sym" and not (v == self.o):
            raise Undecided(f"{name}: {show(v)[:100]}")
        return r


class Raises(Exception):
    def __init__(self, cls, st):
        super().__init__(cls)
        self.cls, self.st = cls, st


def default(ctx, f, node):
    import ast
    if isinstance(node, ast.UnaryOp) and isinstance(node.operand, ast.Constant):
        return C(-node.operand.value)
    if isinstance(node, ast.Constant):
        return C(node.value)
    if isinstance(node, (ast.Name, ast.Attribute)):
        return C({"SEEK_SET": 0, "SEEK_CUR": 1, "SEEK_END": 2}.get(ast.unparse(node).split(".")[-1]))
    raise Undecided("default")


def attempt(ctx, rule, case, construct, body):
    if len(ctx.sites.get("undecided", ())) > 60:
        return
    try:
        msg = body()
    except Undecided as e:
        ctx.saw("undecided", f"{case}: {e}"[:300])
        return
    except Raises as e:
        ctx.saw("decided", case)
        ctx.finding(rule, construct, f"{case}: raises {e.cls}", "", e.st.path())
        return
    ctx.saw("decided", case)
    if msg:
        ctx.finding(rule, construct, f"{case}: {msg}", "", [])


DATA = b"abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" * 3
NEW = b"!$%&/()=?+*#_-.:,;<>[]{}"


def store(h):
    return h.of("backy.rbd.chunked.store.Store", path=("sym", "store-path", ("ext", "pathlib.Path")),
                force_writes=C(False), seen=h.seq("set", []))


def fresh_chunk(ctx, content, mon):
    d = Drive(ctx, "Chunk", mon)
    s = store(d.h)
    d.st = d.h.state(mon)
    d.call("__init__", s, C(_name(content)) if content is not None else NONE, NONE)
    return d


def chunks(ctx):
    e = "Chunk.read"
    for content in (None, DATA[:4], DATA[:2]):
        n = len(content or b"")
        for off, size in itertools.product(range(0, 5), (-1, 0, 1, 2, 4, 9)):
            def body():
                m = Bytes()
                d = fresh_chunk(ctx, content, m)
                r = d.call("read", C(off), C(size))
                want = (content or b"")[off:] if size == -1 else (content or b"")[off:off + size]
                rest = -1 if size == -1 else size - len(want)
                if r != ("t", (("c", want), ("c", rest))):
                    return f"{r} instead of {want}, {rest} more to read"
            attempt(ctx, "C32.chunk-read", f"reading {size} at {off} of a chunk of {n}", e, body)
    e = "Chunk.write"
    for content in (None, DATA[:4], DATA[:2]):
        n = len(content or b"")
        for off, ln in itertools.product(range(0, 4), (1, 2, 3, 4, 5, 9)):
            if off > n:
                continue

            def body():
                m = Bytes()
                d = fresh_chunk(ctx, content, m)
                data = NEW[:ln]
                r = d.call("write", C(off), C(data))
                k = min(CS - off, ln)
                if r != ("t", (("c", k), ("c", data[k:]))):
                    return f"{r} instead of {k} bytes written, {data[k:]} left"
                old = content or b""
                want = old[:off] + data[:k] + old[off + k:]
                r = d.call("read", C(0), C(-1))
                if r[1][0] != ("c", want):
                    return f"the chunk is {r[1][0][1]} instead of {want}"
                r = d.call("flush")
                if r != ("c", _name(want)):
                    return f"the hash of the changed chunk is {r[1]}"
                if d.call("flush") not in (("c", None), ("c", _name(want))):
                    return "flushing again gives something else"
                r = d.call("read", C(0), C(-1))
                if r[1][0] != ("c", want):
                    return "flushing changes the data"
            attempt(ctx, "C32.chunk-write", f"writing {ln} at {off} of a chunk of {n}", e, body)


def mapping(data):
    return {i // CS: _name(data[i:i + CS]) for i in range(0, len(data), CS)}


def opened(ctx, data, mode="rw", cls=None):
    """A file with this content (None: a new one)"""
    m = (cls or Bytes)((mapping(data), len(data)) if data is not None else None, data is not None)
    d = Drive(ctx, "File", m)
    s = store(d.h)
    d.st = d.h.state(m)
    d.call("__init__", C("file"), s, C(mode), NONE)
    return d


def whole(d):
    d.call("seek", C(0))
    return d.call("read")


def check_after(d, want, pos):
    r = d.call("tell")
    if r != ("c", pos):
        return f"the position is {r[1]} instead of {pos}"
    r = whole(d)
    if r != ("c", want):
        return f"the file is {r[1]} instead of {want}"
    d.call("seek", C(0))
    return check_stored(d, want)


def stored(d):
    """size and mapping as they are when the file was closed"""
    d.call("close")
    metas = {st.heap.get((("sym", "written", None), "meta")) for _, st in d.all}
    if metas == {None} and d.mon.meta and not any(
            (("sym", "written", None), "opened") in st.heap for _, st in d.all):
        # nothing was written: what was there before
        return ("c", d.mon.meta[1]), d.mon.meta[0]
    if len(metas) > 1 or None in metas or NONE in metas:
        raise Undecided("the mapping")
    meta = metas.pop()[2]
    if meta[0] != "d":
        raise Undecided("the mapping")
    meta = dict(meta[1])
    mp = meta.get(("c", "mapping"))
    if mp is None or mp[0] != "d":
        raise Undecided("the mapping")
    return meta.get(("c", "size")), {int(k[1]): v[1] for k, v in mp[1]}


def check_stored(d, want):
    size, got = stored(d)
    if size != ("c", len(want)):
        return f"the size stored is {size}"
    if got != mapping(want):
        wrong = sorted(set(got.items()) ^ set(mapping(want).items()))[:2]
        return f"the chunks stored are not those of the data: {wrong}"


LENGTHS = (0, 3, 4, 6, 8, 9)


def files(ctx):
    for n in LENGTHS[1:]:
        data = DATA[:n]
        for pos, size in itertools.product(sorted({0, 1, 3, 4, 5, n - 1, n}), (-1, 0, 1, 3, 4, 5, 100)):
            if pos > n:
                continue

            def body():
                d = opened(ctx, data, "r")
                r = d.call("seek", C(pos))
                if r != ("c", pos):
                    return f"seek answers {r[1]}"
                r = d.call("read", C(size))
                want = data[pos:] if size == -1 else data[pos:pos + size]
                if r != ("c", want):
                    return f"{r[1]} instead of {want}"
                r = d.call("tell")
                if r != ("c", pos + len(want)):
                    return f"the position is {r[1]} instead of {pos + len(want)}"
            attempt(ctx, "C32.read", f"reading {size} at {pos} of a file of {n}", "File.read", body)
    for n in LENGTHS:
        data = DATA[:n]
        for pos, ln in itertools.product(sorted({0, 1, 3, 4, 5, n}), (1, 4, 5, 9)):
            if pos > n:
                continue

            def body():
                d = opened(ctx, data if n else None)
                d.call("seek", C(pos))
                new = NEW[:ln]
                d.call("write", C(new))
                return check_after(d, data[:pos] + new + data[pos + ln:], pos + ln)
            attempt(ctx, "C32.write", f"writing {ln} at {pos} of a file of {n}", "File.write", body)

            def body(mode="wb"):
                # as a backup does it
                d = opened(ctx, data if n else None, mode)
                d.call("seek", C(pos))
                d.call("write", C(NEW[:ln]))
                return check_stored(d, data[:pos] + NEW[:ln] + data[pos + ln:])
            attempt(ctx, "C32.write", f"writing {ln} at {pos} of a file of {n} opened for writing only",
                    "File.write", body)
            if (pos, ln) in ((1, 4), (4, 1)):
                attempt(ctx, "C32.write", f"writing {ln} at {pos} of a file of {n} opened as 'w'", "File.write",
                        lambda: body("w"))


def truncating(ctx):
    for n, k in itertools.product((3, 4, 6, 9), (0, 1, 3, 4, 5, 6, 8)):
        if k > n:
            continue
        data = DATA[:n]
        for how in ("position", "size"):
            for again in (None, 2, 5):
                def body():
                    d = opened(ctx, data)
                    if how == "position":
                        d.call("seek", C(k))
                        d.call("truncate")
                    else:
                        d.call("truncate", C(k))
                    want = data[:k]
                    if again is not None:
                        d.call("seek", C(k + again))
                        want += b"\0" * again
                    r = whole(d)
                    if r != ("c", want):
                        return f"the file is {r[1]} instead of {want}"
                    size, got = stored(d)
                    if size != ("c", len(want)):
                        return f"the size stored is {size}"
                    for i, h in mapping(want).items():
                        if not got.get(i, "").startswith(h):
                            return f"chunk {i} of the data left is not stored"
                attempt(ctx, "C32.truncate", f"cutting a file of {n} to {k} ({how})" + (
                    f" and letting it grow by {again}" if again else ""), "File.truncate", body)

    def body():
        d = opened(ctx, None, "wb")
        d.call("close")
        if not any((("sym", "written", None), "opened") in st.heap for _, st in d.all):
            return "nothing is stored when it is closed"
    attempt(ctx, "C32.write", "a new file of length 0", "File.close", body)


def more(ctx):
    # seeking
    for n in (3, 4, 9):
        data = DATA[:n]
        for at, off, whence, want in ((0, 2, 0, 2), (1, 2, 1, 3), (2, -1, 1, 1), (1, 0, 2, n), (0, 2, 2, n - 2),
                                      (2, 0, 0, 0), (0, n, 0, n)):
            def body():
                d = opened(ctx, data)
                d.call("seek", C(at))
                r = d.call("seek", C(off), C(whence))
                if r != ("c", want):
                    return f"the answer is {r[1]} instead of {want}"
                r = d.call("tell")
                if r != ("c", want):
                    return f"the position is {r[1]} instead of {want}"
            attempt(ctx, "C32.seek", f"seek({off}, {whence}) from {at} of {n}", "File.seek", body)
        for off, whence in ((-1, 0), (-5, 1), (n + 1, 2)):
            def body():
                d = opened(ctx, data)
                try:
                    r = d.call("seek", C(off), C(whence))
                except Raises:
                    return None
                return f"a place before the beginning is {r[1]}"
            attempt(ctx, "C32.seek", f"seek({off}, {whence}) of {n}", "File.seek", body)
        for beyond in (n + 1, n + 4, n + 9):
            def body():
                d = opened(ctx, data)
                d.call("seek", C(beyond))
                return check_after(d, data + b"\0" * (beyond - n), beyond)
            attempt(ctx, "C32.seek", f"seeking to {beyond} in a file of {n}", "File.seek", body)

            def body():
                d = opened(ctx, data)
                d.call("seek", C(1))
                d.call("seek", C(beyond - 1), C(1))
                return check_after(d, data + b"\0" * (beyond - n), beyond)
            attempt(ctx, "C32.seek", f"seeking from 1 on to {beyond} in a file of {n}", "File.seek", body)
    # several writes, reading in between, many chunks
    for cuts in ((4, 8), (1, 2, 3, 4, 5), (3, 7, 9), (5, 5), (6,)):
        def body():
            d = opened(ctx, None)
            last = 0
            for c in cuts + (11,):
                d.call("write", C(DATA[last:c]))
                last = c
            return check_after(d, DATA[:11], 11)
        attempt(ctx, "C32.write", f"writing 11 in pieces {cuts}", "File.write", body)

    def body():
        # more chunks than are kept in memory
        d = opened(ctx, None)
        d.call("write", C(DATA[:99]))
        d.call("seek", C(1))
        d.call("write", C(NEW[:2]))
        want = DATA[:1] + NEW[:2] + DATA[3:99]
        return check_after(d, want, 3)
    attempt(ctx, "C32.write", "writing more chunks than are kept", "File._flush_chunks", body)

    def body():
        data = DATA[:99]
        d = opened(ctx, data, "rw")
        r = d.call("read")
        if r != ("c", data):
            return "the data is not what is stored"
        d.call("seek", C(50))
        d.call("write", C(NEW[:9]))
        return check_after(d, data[:50] + NEW[:9] + data[59:], 59)
    attempt(ctx, "C32.read", "reading more chunks than are kept", "File._flush_chunks", body)
    # modes
    for mode, data in (("a", DATA[:6]), ("ra", DATA[:6])):
        def body():
            d = opened(ctx, data, mode)
            r = d.call("tell")
            if r != ("c", 6):
                return f"a file opened for appending is at {r[1]} instead of its end"
        attempt(ctx, "C32.mode", f"opening with {mode}", "File.__init__", body)
    for mode, r, w in (("r", True, False), ("rw", True, True), ("r+", True, True), ("w", False, True)):
        def body():
            d = opened(ctx, DATA[:6], mode)
            a, b = d.call("readable"), d.call("writable")
            if (a[1], b[1]) != (r, w):
                return f"readable: {a[1]}, writable: {b[1]}"
            if not w:
                try:
                    d.call("write", C(b"x"))
                except Raises:
                    return None
                return "a file that is not opened for writing is written to"
        attempt(ctx, "C32.mode", f"opening with {mode}", "File.__init__", body)

    def body():
        m = Bytes()
        d = Drive(ctx, "File", m)
        s = store(d.h)
        d.st = d.h.state(m)
        try:
            d.call("__init__", C("file"), s, C("r"), NONE)
        except Raises as e:
            return None
        return "a file that does not exist is opened for reading"
    attempt(ctx, "C32.mode", "opening what does not exist", "File.__init__", body)


def check(ctx):
    ctx.rule("C32.chunk-read", "reading a chunk gives its data at the place, and how much is missing")
    ctx.rule("C32.chunk-write", "writing a chunk replaces the data at the place, and gives what does not fit")
    ctx.rule("C32.read", "reading gives the data at the position and moves it")
    ctx.rule("C32.write", "writing replaces the data at the position; the chunks stored are those of the data")
    ctx.rule("C32.seek", "seeking moves the position; the gap behind the end is filled with zeroes")
    ctx.rule("C32.mode", "what is opened for reading is not written to")
    chunks(ctx)
    ctx.rule("C32.truncate", "cutting keeps the data before the end, and nothing behind it")
    files(ctx)
    truncating(ctx)
    more(ctx)
    ctx.need("decided", 1)
