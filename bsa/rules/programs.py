"""backy and the source programs with constants: restore options from one to the other, and
where the configuration is written and read."""
import ast

from .c17 import expand
from .c31 import Heap
from .reload import World, drive
from .util import *


def simple(t):
    while t[0] in ("typed", "conv") or t[0] == "app" and t[1] in ("str", "pathlib.Path", "os.fspath") and len(t[2]) == 1:
        t = t[1] if t[0] == "typed" else t[2] if t[0] == "conv" else t[2][0]
    return t


def members(p, t):
    """the members of an enumeration of the repository, None if it is none"""
    c = p.class_by_qual.get(t[1]) if t[0] in ("class", "enum") else None
    if c is None or not c.is_enum:
        return None
    return {n: v.value for n, v in c.attrs.items() if isinstance(v, ast.Constant) and not n.startswith("_")}


TARGETS = ("/tmp/Bk x", "-", "vm0", "a=b.img", "~/.x")


def options(ctx, cls, table, parse):
    """every restore option arrives in the program as it was (constants)"""
    p = ctx.p
    c = p.cls(cls)
    to, back = p.try_method(cls, "to_cmdargs"), p.try_method(cls, "from_args")
    fields = [n for n, _ in c.fields] if c.fields and isinstance(c.fields[0], tuple) else list(c.fields)
    if to is None or back is None or "target" not in fields:
        return
    enums = {}
    for n in fields:
        for k, q in p.class_by_qual.items():
            if q.is_enum and any(isinstance(x, ast.AnnAssign) and getattr(x.target, "id", "") == n and getattr(
                    x.annotation, "id", "") == k.split(".")[-1] for x in c.node.body):
                enums[n] = k
    if set(fields) - set(enums) != {"target"}:
        ctx.saw("undecided", f"{cls}: fields {fields}")
        return
    alts = [{}]
    for n, k in enums.items():
        alts = [dict(a, **{n: ("enum", k, x)}) for a in alts for x in members(p, ("class", k))]
    for a in alts:
        for t in TARGETS:
            given = dict(a, target=C(t))
            case = f"{cls}({', '.join(f'{n}={show(v)}' for n, v in given.items())})"
            h, m = Heap(), World()
            o = h.of(c.qual, **given)
            r = drive(ctx, m, to, h, o, case)
            if r is None or r[0][0] == "exc":
                continue
            words = [simple(w) if w is not None else None for w in expand(r[0], r[1])]
            if not all(w is not None and (is_str(w) or w[0] == "enum") for w in words):
                ctx.saw("undecided", f"{case}: {words}"[:150])
                continue
            where = f"{case}: the program"
            if any(w[0] == "enum" for w in words):
                ctx.finding("C29.values", f"{cls}.to_cmdargs", f"{case}: an option is no string", to.loc)
                return
            got, rest, err = parse(words, table)
            if err or rest:
                ctx.finding("C29.values", f"{cls}.to_cmdargs", f"{where} does not take "
                            f"{' '.join(w[2] for w in words)}" + (f" ({err})" if err else ""), to.loc)
                return
            kw = {}
            for d, uses in table.items():
                for k in uses.values():
                    v = got.get(d, k.get("default", NONE))
                    v = simple(v)
                    ty = k.get("type")
                    ms = members(p, ty) if ty is not None and is_str(v) else None
                    if ms is not None:
                        n = [x for x, y in ms.items() if y == v[2]]
                        if not n:
                            ctx.finding("C29.values", f"{cls}.to_cmdargs", f"{where} does not take {v[2]!r} as "
                                        f"{'/'.join(k['flags'])}", to.loc)
                            return
                        v = ("enum", ty[1], n[0])
                    kw[d] = v
            h, m = Heap(), World()
            more = {"func": C("restore"), "verbose": FALSE, "workdir": C("."), "taskid": C("ABCD"), "revision": C("u1")}
            kw = {**more, **kw}
            names = set(back.params())
            if not back.node.args.kwarg:
                kw = {k: v for k, v in kw.items() if k in back.all_params()}
            r = drive(ctx, m, back, h, ("class", c.qual), case + " in the program", args={
                k: v for k, v in kw.items() if k in names}, kw=dict({k: v for k, v in kw.items() if k not in names},
                                                                    **{"**": None}))
            if r is None or r[0][0] == "exc" or r[0][0] != "obj":
                continue
            for n, v in given.items():
                x = r[1].heap.get((r[0], n))
                if x is None:       # (left at its default)
                    continue
                x = simple(x)
                if (is_c(x) or x[0] == "enum") and x != v:
                    ctx.finding("C29.values", f"{cls}.from_args", f"{where} has {n}={show(x)}", back.loc)
                    return


class Files(World):
    """state: (what, path)"""

    def event(self, ev, st, I):
        if ev.kind != "call" or not ev.args:
            return
        if ev.name in ("fs.rename", "fs.link", "fs.copy") and len(ev.args) > 1:
            st.mon = st.mon + (("put", simple(ev.args[1])),)
        elif ev.name == "fs.open":
            st.mon = st.mon + (("write" if is_write_mode(ev.args[1]) else "read", simple(ev.args[0])),)


def flat(t):
    """the constant path a term is, else None"""
    t = simple(t)
    if is_str(t):
        return t[2]
    if t[0] == "join" or t[0] == "bin" and t[1] == "/":
        a, b = flat(t[-2]), flat(t[-1])
        return None if a is None or b is None else a.rstrip("/") + "/" + b
    return None


def stored(ctx):
    p = ctx.p
    store, load = p.try_method("CmdLineSource", "store"), p.try_method("CmdLineSource", "load")
    if store is None or load is None:
        return
    h, m = Heap(), Files()
    m.faults = False
    one = lambda I, fv, args, kw, st, node, fr: [(("sym", "source", None), st)]
    sub = {f.qual: one for f in (p.try_method("CmdLineSource", "from_config"),) if f}
    r = drive(ctx, m, load, h, ("class", "backy.source.CmdLineSource"), "reading the configuration of /base/job",
              args={n: v for n, v in (("path", C("/base/job")), ("log", ("sym", "log", None))) if n in load.params()}, subst=sub)
    if r is None:
        return
    read = {flat(t) for w, t in r[1].mon if w == "read"}
    if len(read) != 1 or None in read:
        ctx.saw("undecided", f"the configuration is read from {read}")
        return
    read = read.pop()
    for there in (False, True):
        case = "storing the configuration of /base/job, " + (
            "where there is one of the same size with other content" if there else "where there is none")
        h, m = Heap(), Files()
        stat = ("obj", ("stat", 0), "stat_result")

        def info(I, A, kw, st, there=there):
            if flat(A[0]) == read and not there:
                I.throw(("exc", "FileNotFoundError", True), st)
                return []
            st.heap[stat, "st_size"] = C(100)
            return stat
        known = lambda I, A, kw, st, there=there: C(there) if flat(A[0]) == read else None
        m.ext = dict(m.ext)
        m.ext.update({"fs.exists": known, "fs.isfile": known, "fs.stat": info, "fs.lstat": info,
                      "os.path.getsize": lambda I, A, kw, st: C(100), "fs.mkdir": lambda I, A, kw, st: NONE,
                      "filecmp.cmp": lambda I, A, kw, st: FALSE, "fs.fsync": lambda I, A, kw, st: NONE})
        repo = h.of("backy.repository.Repository", path=C("/base/job"), name=C("job"), log=("sym", "log", None),
                    _lock_fds=h.dict({}), schedule=("sym", "schedule", None))
        src = h.of("backy.source.AsyncCmdLineSource", repository=repo, log=("sym", "log", None),
                   source_conf=h.dict({"type": "file"}))
        r = drive(ctx, m, store, h, src, case)
        if r is None:
            continue
        put = {flat(t) for w, t in r[1].mon if w in ("put", "write")}
        if r[0][0] == "exc" and not put:
            if there:
                ctx.finding("C29.store", "CmdLineSource.store", f"{case}: refused", store.loc)
        elif r[0][0] != "exc" and read not in put and not (None in put and not any(w == "put" for w, _ in r[1].mon)):
            ctx.finding("C29.store", "CmdLineSource.store", f"{case}: it is " + (
                f"written to {', '.join(sorted(map(str, put)))}, but read from {read}" if any(
                    w == "put" for w, _ in r[1].mon) else "not written"), store.loc)
