"""One round of purge_old_files on small trees of constant ages: what is removed."""
import stat as ST
from .c31 import Heap
from .reload import World, drive
from .util import *

NOW = 2_000_000_000
DAY = 86400


def flat(t, path):
    """the constant path a term stands for"""
    if t in path:
        return path[t]
    if is_str(t):
        return t[2].rstrip("/")
    if t[0] == "typed" or t[0] == "conv" and t[1] == "str":
        return flat(t[1] if t[0] == "typed" else t[2], path)
    if t[0] == "bin" and t[1] == "/":
        t = ("join", *t[2:])
    if t[0] in ("join", "tuple"):
        xs = [flat(x, path) for y in t[1:] for x in (y if y and isinstance(y[0], tuple) else [y])]
        return None if None in xs else "/".join(xs)
    return None


def d(age, **entries):
    return ("dir", age, entries)


def f(age):
    return ("file", age, {})


def ln(age, to):
    return ("link", age, to)


TREES = (
    ("an old directory", d(200), True),
    ("a new directory", d(1), False),
    ("an old directory with a new file", d(200, a=f(200), b=f(1)), False),
    ("an old directory with old files", d(200, a=f(200), b=f(150)), True),
    ("a new file two levels down", d(200, a=f(200), b=d(200, c=f(1))), False),
    ("a new directory two levels down", d(200, a=d(200, c=d(1))), False),
    ("old files two levels down", d(200, a=f(200), b=d(200, c=f(200))), True),
    ("a new file in the second of two subdirectories", d(200, a=d(200, x=f(200)), b=d(200, c=f(1))), False),
    ("a new file in the first of two subdirectories", d(200, a=d(200, x=f(1)), b=d(200, c=f(200))), False),
    ("a new file three levels down", d(200, a=d(200, b=d(200, c=f(1)))), False),
    ("an empty directory before one with a new file", d(200, a=d(200), b=d(200, c=f(2))), False),
    ("modified 92 days ago", d(92), False),
    ("modified 94 days ago", d(94), True),
    ("a file modified 92 days ago", d(200, a=f(92)), False),
    ("a file modified 94 days ago", d(200, a=f(94)), True),
    ("a new link to an old file", d(200, a=ln(1, f(200))), False),
    ("an old link to a new file", d(200, a=ln(200, f(1))), True),
    ("an old link to a directory with a new file", d(200, a=ln(200, d(200, b=f(1)))), True),
    ("an old link in the base directory to an old directory", ln(200, d(200, a=f(200))), False),
    ("an old file in the base directory", f(200), False),
)


def old(ctx, rule, rounds=None):
    p = ctx.p
    func = p.try_method("BackyDaemon", "purge_old_files")
    if func is None:
        return
    cases = [([x], n, {"x"} if gone else set()) for n, x, gone in TREES]
    cases += [([d(200, a=f(1)), d(200, a=f(200)), d(1)], "new, old, new", {"y"}),
              ([d(200), f(200), d(200, a=d(200))], "old, a file, old", {"x", "z"}),
              ([ln(200, d(200)), d(200), d(1)], "a link, old, new", {"y"}), ([], "an empty base directory", set())]
    for trees, case, want in cases:
        h, m = Heap(), World()
        base = {n: t for n, t in zip("xyz", trees)}
        daemon = h.of("backy.daemon.BackyDaemon", base_dir=C("/base"), log=("sym", "log", None), jobs=h.dict({}),
                      dead_repositories=h.dict({}))
        entry, path = {}, {}

        def enter(where, name, t):
            o = h.of("DirEntry", name=C(name), path=C(where + "/" + name))
            entry[where + "/" + name], path[o] = o, where + "/" + name
            for k, x in t[2].items() if t[0] == "dir" else t[2][2].items() if t[0] == "link" and t[2][0] == "dir" else ():
                enter(where + "/" + name, k, x)
        for n, t in base.items():
            enter("/base", n, t)
        stats = {}

        def at(s, follow=True):
            """what is at a path"""
            parts = s.strip("/").split("/")
            if parts[0] != "base":
                return None
            t = d(1, **base)
            for k in parts[1:]:
                if t[0] == "link":
                    t = t[2]
                if t[0] != "dir" or k not in t[2]:
                    return None
                t = t[2][k]
            return t[2] if t[0] == "link" and follow else t

        def name_of(t):
            return flat(t, path)

        def follows(I, kw):
            v = dict(kw or {}).get("follow_symlinks", TRUE)
            return v == TRUE and "lstat" not in (getattr(I, "fs_name", "") or "")

        def ask(kind):
            def g(I, A, kw, st):
                n = name_of(A[0])
                t = at(n, kind != "link" and follows(I, kw)) if n else None
                return None if n is None else C(t is not None and (kind == "any" or t[0] == kind))
            return g

        def stat(I, A, kw, st):
            n = name_of(A[0])
            t = at(n, follows(I, kw)) if n else None
            if t is None:
                return None
            o = stats.setdefault((n, t[0], t[1]), ("obj", ("stat", n, t[0]), "stat_result"))
            st.heap[o, "st_mtime"] = C(float(NOW - t[1] * DAY))
            st.heap[o, "st_mtime_ns"] = C((NOW - t[1] * DAY) * 10 ** 9)
            st.heap[o, "st_ctime"] = st.heap[o, "st_atime"] = C(float(NOW - (10 if t[1] > 93 else 300) * DAY))
            st.heap[o, "st_mode"] = C({"dir": ST.S_IFDIR, "file": ST.S_IFREG, "link": ST.S_IFLNK}[t[0]])
            return o

        def lstat(I, A, kw, st):
            return stat(I, A, {"follow_symlinks": FALSE}, st)

        def inside(names):
            def g(I, A, kw, st):
                n = name_of(A[0]) if A else None
                t = at(n) if n else None
                if t is None or t[0] != "dir":
                    return None
                if n.rstrip("/") == "/base":
                    st.mon = st.mon + (("scan", n),)
                return ("tuple", tuple(C(k) if names else entry[n.rstrip("/") + "/" + k] for k in t[2]))
            return g

        def rmtree(I, A, kw, st):
            n = name_of(A[0])
            st.mon = st.mon + (("rmtree", n or "?"),)
            return NONE

        def pause(I, A, kw, st):
            if not any(w == "scan" for w, _ in st.mon):
                return NONE
            I.throw(("exc", "asyncio.CancelledError", True), st)
            return []
        for n, k in (("fs.isdir", "dir"), ("fs.islink", "link"), ("fs.isfile", "file"), ("fs.exists", "any")):
            m.ext[n] = ask(k)
        for n, k in (("is_dir", "dir"), ("is_symlink", "link"), ("is_file", "file")):
            m.ext["DirEntry", n] = ask(k)
        mode = lambda what: lambda I, A, kw, st: C(what(A[0][2])) if A and is_c(A[0]) else None
        for n in ("S_ISDIR", "S_ISLNK", "S_ISREG"):
            m.ext["stat." + n] = mode(getattr(ST, n))
        m.ext.update({"fs.stat": stat, "fs.lstat": lstat, ("DirEntry", "stat"): stat, "fs.scandir": inside(False),
                      "fs.listdir": inside(True), "fs.rmtree": rmtree, "time.time": lambda I, A, kw, st: C(float(NOW)),
                      "asyncio.sleep": pause, "asyncio.tasks.sleep": pause})
        got = drive(ctx, m, func, h, daemon, f"purge_old_files: {case}")
        if got is None or got[0] != ("exc", "asyncio.CancelledError", True):
            if got is not None:
                ctx.saw("undecided", f"purge_old_files: {case}: {show(got[0])[:60]}")
            continue
        gone = {n for w, n in got[1].mon if w != "scan"}
        if "?" in gone:
            continue
        want = {"/base/" + x for x in want}
        if gone != want:
            x = sorted(gone ^ want)[0]
            ctx.finding(rule, "BackyDaemon.purge_old_files", f"{case}: {x} is {'' if x in gone else 'not '}removed",
                        func.loc, got[1].path())
            return


def pending(ctx, rule):
    """one round of purge_pending_backups"""
    p = ctx.p
    func = p.try_method("BackyDaemon", "purge_pending_backups")
    load, gc = p.try_method("AsyncCmdLineSource", "load"), p.try_method("AsyncCmdLineSource", "gc")
    if func is None or load is None or gc is None:
        return
    mark, real = {".purge_pending": f(1)}, {"config": f(1)}
    for base, jobs, want in (
            ({"a": d(1, **mark, **real)}, "", "a"), ({"a": d(1, **real)}, "", ""), ({"a": d(1, **mark)}, "a", ""),
            ({"a": d(1, **mark), "b": d(1, **mark)}, "a", "b"), ({"a": d(1, **mark), "b": d(1, **mark)}, "", "ab"),
            ({"a": ln(1, d(1, **mark))}, "", ""), ({"a": f(1), "b": d(1, **mark)}, "", "b"),
            ({"a": d(1), "b": d(1, **mark), "c": d(1)}, "", "b"), ({"b": d(1, **mark), "a": d(1, **mark)}, "b", "a"),
            ({"ab": d(1, **mark), "a": d(1)}, "a", ["ab"]), ({}, "a", "")):
        h, m = Heap(), World()
        case = f"{', '.join(f'{k}: {t[0]}' + (' with a mark' if t[0] == 'dir' and t[2].get('.purge_pending') else '') for k, t in base.items()) or 'nothing'}; jobs {jobs or '-'}"
        old = {n: h.of("backy.daemon.scheduler.Job", name=C(n)) for n in jobs}
        daemon = h.of("backy.daemon.BackyDaemon", base_dir=C("/base"), log=("sym", "log", None), jobs=h.dict(old),
                      dead_repositories=h.dict({}), config=h.dict({}), schedules=h.dict({}))
        entry = {k: h.of("DirEntry", name=C(k), path=C("/base/" + k)) for k in base}
        path = {o: "/base/" + k for k, o in entry.items()}

        def at(s, follow=True):
            parts = s.strip("/").split("/")
            t = d(1, **base)
            if parts[0] != "base":
                return None
            for k in parts[1:]:
                if t[0] == "link":
                    t = t[2]
                if t[0] != "dir" or k not in t[2]:
                    return None
                t = t[2][k]
            return t[2] if t[0] == "link" and follow else t

        def name_of(t):
            return flat(t, path)

        def ask(kind):
            def g(I, A, kw, st):
                n = name_of(A[0]) if A else None
                t = at(n, kind != "link" and dict(kw or {}).get("follow_symlinks", TRUE) == TRUE) if n else None
                return None if n is None else C(t is not None and (kind == "any" or t[0] == kind))
            return g

        def pause(I, A, kw, st):
            if not any(w == "scan" for w, _ in st.mon):
                return NONE
            I.throw(("exc", "asyncio.CancelledError", True), st)
            return []

        def loaded(I, fv, args, kw, st, node, fr):
            xs = [x for x in (flat(x, path) for x in [*args, *dict(kw or {}).values()]) if x]
            o = ("obj", ("source", xs[0] if xs else "?"), "backy.source.AsyncCmdLineSource")
            return [(o, st)]

        def collect(I, fv, args, kw, st, node, fr):
            me = fv[3] if fv[3] is not None else args[0]
            st.mon = st.mon + (("gc", me[1][1] if me[0] == "obj" and isinstance(me[1], tuple) and me[1][0] == "source"
                                else "?"),)
            return [(NONE, st)]
        for n, k in (("fs.isdir", "dir"), ("fs.islink", "link"), ("fs.isfile", "file"), ("fs.exists", "any")):
            m.ext[n] = ask(k)
        for n, k in (("is_dir", "dir"), ("is_symlink", "link"), ("is_file", "file")):
            m.ext["DirEntry", n] = ask(k)
        def inside(xs):
            def g(I, A, kw, st):
                st.mon = st.mon + (("scan", "/base"),)
                return ("tuple", tuple(xs))
            return g
        m.ext.update({"fs.scandir": inside(entry.values()), "fs.listdir": inside([C(k) for k in entry]),
                      "asyncio.sleep": pause, "asyncio.tasks.sleep": pause})
        got = drive(ctx, m, func, h, daemon, f"purge_pending_backups: {case}", subst={load.qual: loaded, gc.qual: collect})
        if got is None:
            continue
        done = [n for w, n in got[1].mon if w != "scan"]
        if got[0] != ("exc", "asyncio.CancelledError", True) or "?" in done:
            ctx.saw("undecided", f"purge_pending_backups: {case}: {show(got[0])[:60]} {done}")
            continue
        want = sorted("/base/" + x for x in want)
        if sorted(done) != want:
            x = sorted(set(done) ^ set(want))[0] if set(done) ^ set(want) else done[0]
            ctx.finding(rule, "BackyDaemon.purge_pending_backups", f"{case}: the garbage of {x} is " + (
                "collected" if x in done else "not collected"), func.loc, got[1].path())
            return
