"""Subcommands with constant arguments: what they have done, and the status they end with."""
from .c31 import Heap, value
from .reload import World, drive
from .util import *

UUIDS = ("u1", "u2", "u3")


class Bench:
    """a Command with one repository of three revisions, and stand-ins for what it has done"""

    def __init__(self, ctx, answers=None, path="/base/job"):
        self.ctx, p = ctx, ctx.p
        self.answers = answers or {}
        self.h, self.m = h, m = Heap(), World()
        log = ("sym", "log", None)
        self.repo = h.of("backy.repository.Repository", path=C("/base/job"), name=C("job"), log=log, history=NONE,
                         _lock_fds=h.dict({}))
        self.revs = {u: h.of("backy.revision.Revision", uuid=C(u), repository=self.repo, server=C(""),
                             info_filename=C(f"/base/job/{u}.rev")) for u in UUIDS}
        self.new = h.of("backy.revision.Revision", uuid=C("new"), repository=self.repo, server=C(""))
        h.h[self.repo, "history"] = h.seq("list", list(self.revs.values()))
        self.source = h.of("backy.source.CmdLineSource", repository=self.repo, log=log,
                           source_conf=h.dict({"type": "file"}), restore_type=("class", "backy.file.FileRestoreArgs"))
        self.api = h.of("backy.daemon.api.Client", log=log, session=("sym", "http", None))
        self.cmd = h.of("backy.cli.Command", path=C(path), config=C("/etc/backy.conf"), jobs=NONE, dry_run=FALSE, log=log,
                        source=self.source, api=self.api)
        self.names = {o: u for u, o in self.revs.items()}
        self.names.update({self.new: "new", self.repo: "job"})
        self.sub = {}
        for n in ("rm", "distrust", "tags", "expire", "validate_tags", "_clean", "find_revisions", "find", "find_by_uuid",
                  "scan", "connect"):
            self.put("Repository." + n)
        for n in ("backup", "restore", "verify", "gc"):
            self.put("CmdLineSource." + n)
        for n in ("create", "materialize", "remove"):
            self.put("Revision." + n)
        for n in ("run_job",):
            self.put("Client." + n)

    def put(self, name):
        f = self.ctx.p.try_method(*name.split("."))
        if f is not None:
            self.sub[f.qual] = self.stand_in(name, f)

    def plain(self, t, st):
        """names of revisions, constants, sets of strings"""
        if t in self.names:
            return self.names[t]
        v = value(t, st)
        if v is not None and v[0] in ("c", "s", "t"):
            return v[1] if v[0] == "c" else (v[0],) + tuple(sorted(repr(x[1]) for x in v[1]))
        while t[0] == "conv":
            t = t[2]
        if t[0] == "tuple":
            return tuple(self.plain(x, st) for x in t[1])
        its = st.heap.get((t, "#c")) if t[0] == "obj" else None
        if its is not None and all(i[0] == "v" for i in its):
            return tuple(self.plain(i[1], st) for i in its)
        return "?" + show(t)[:40]

    def stand_in(self, name, f):
        def g(I, fv, args, kw, st, node, fr):
            a = list(args)
            me = fv[3]
            if me is None and f.params()[:1] in (["self"], ["cls"]) and a:
                me = a[0]
            if f.params()[:1] in (["self"], ["cls"]) and a and a[0] == me:
                a = a[1:]
            given = dict(zip([x for x in f.params() if x not in ("self", "cls")], a))
            given.update({k: v for k, v in dict(kw or {}).items() if k})
            given = {k: self.plain(v, st) for k, v in given.items() if k not in ("log", "args")}
            n = sum(x[0] == name for x in st.mon)
            st.mon = st.mon + ((name, self.names.get(me), tuple(sorted(given.items(), key=lambda x: x[0]))),)
            ans = self.answers.get(name)
            if isinstance(ans, (list, tuple)):
                ans = ans[n % len(ans)]
            if isinstance(ans, str):
                e = ("exc", ans, True)
                if ans.endswith("ClientResponseError"):
                    st.heap[e, "status"] = C(404 if n == 0 else 500)
                I.throw(e, st)
                return []
            if name == "Repository.find_revisions":
                return [(self.hits, st)]
            if name in ("Repository.find", "Repository.find_by_uuid"):
                return [(self.revs["u2"], st)]
            if name == "Revision.create":
                return [(self.new, st)]
            return [(NONE if ans is None else C(ans), st)]
        return g

    def run(self, name, case, **args):
        f = self.ctx.p.try_method("Command", name)
        if f is None or not set(args) <= set(f.all_params()) | {"target"}:
            return None
        self.hits = self.h.seq("list", list(self.revs.values()))
        printed = lambda I, A, kw, st: self.say(A, st)
        self.m.ext["builtins.print"] = self.m.ext["print"] = printed
        kw = {k: v for k, v in args.items() if k not in f.params()}
        r = drive(self.ctx, self.m, f, self.h, self.cmd, f"{name}: {case}", args={k: v for k, v in args.items() if k in f.params()},
                  kw=kw or None, subst=self.sub)
        if r is None:
            return None
        v, st = r
        if any("?" in repr(x) for x in st.mon):
            self.ctx.saw("undecided", f"{name}: {case}: {st.mon}"[:200])
            return None
        return v, st.mon, f

    def say(self, A, st):
        st.mon = st.mon + (("print", None, tuple(self.plain(a, st) for a in A)),)
        return NONE


def s(*xs):
    return ("s",) + tuple(sorted(repr(x) for x in xs))


def did(r, name):
    return [dict(g) for n, _, g in r[1] if n == name]


def fails(v):
    """is that taken for a failure?"""
    return v[0] == "exc" or is_c(v) and isinstance(v[2], (int, bool)) and v[2] not in (0, None)


def works(v):
    return v == NONE or is_c(v) and v[2] in (0, None, False)


def given(ctx, rule):
    p = ctx.p

    def say(f, case, msg):
        ctx.finding(rule, f"Command.{f.name}", f"{case}: {msg}", f.loc)

    # tags
    for action, tags, want, expect, exp, auto, force in (
            ("set", "a", ("a",), None, None, False, False), ("add", "a, b", ("a", "b"), "x", ("x",), True, False),
            ("remove", "b,a", ("a", "b"), " x ,y", ("x", "y"), False, True), ("set", "c", ("c",), "c", ("c",), True, True),
            ("add", "a,a", ("a",), None, None, False, True)):
        b = Bench(ctx, {"Repository.tags": True})
        case = f"{action} {tags!r}" + (f", expecting {expect!r}" if expect is not None else "")
        r = b.run("tags", case, repo=b.repo, tag_action=C(action), autoremove=C(auto), expect=NONE if expect is None else
                  C(expect), revision=C("spec"), tags=C(tags), force=C(force))
        if r is None:
            continue
        calls = did(r, "Repository.tags")
        full = dict(action=action, revision="spec", tags=s(*want), expect=None if exp is None else s(*exp), autoremove=auto,
                    force=force)
        dflt = dict(expect=None, autoremove=False, force=False)
        if len(calls) != 1:
            say(r[2], case, f"the tags are changed {len(calls)} times")
            break
        bad = [k for k, v in full.items() if calls[0].get(k, dflt.get(k)) != v]
        if bad:
            say(r[2], case, f"{bad[0]} is {calls[0].get(bad[0], dflt.get(bad[0]))} instead of {full[bad[0]]}")
            break
        if not works(r[0]):
            say(r[2], case, "fails although the tags were changed")
            break
    # rm, distrust: all revisions found
    for name in ("rm", "distrust"):
        b = Bench(ctx)
        r = b.run(name, "a specification of three revisions", repo=b.repo, revision=C("spec"))
        if r is None:
            continue
        calls = did(r, "Repository." + name)
        got = [x for c in calls for v in c.values() for x in (v if isinstance(v, tuple) else (v,))]
        if sorted(got) != sorted(UUIDS):
            say(r[2], "a specification of three revisions", f"works on {', '.join(map(str, got)) or 'none'}")
    b = Bench(ctx)
    r = b.run("verify", "a specification of three revisions", revision=C("spec"))
    if r is not None:
        got = [v for c in did(r, "CmdLineSource.verify") for v in c.values()]
        if sorted(got) != sorted(UUIDS):
            say(r[2], "a specification of three revisions", f"verifies {', '.join(map(str, got)) or 'none'}")
    for full in (True, False):
        b = Bench(ctx)
        case = "a specification of three revisions" + (", --uuid" if full else "")
        r = b.run("rev_parse", case, repo=b.repo, revision=C("spec"), uuid=C(full))
        if r is not None:
            got = [x[0] for n, _, x in r[1] if n == "print" and len(x) == 1]
            want = [u if full else f"/base/job/{u}.rev" for u in UUIDS]
            if got != want:
                say(r[2], case, f"prints {', '.join(map(str, got)) or 'nothing'}")
    b = Bench(ctx, {"CmdLineSource.restore": 0})
    case = "a specification of one revision"
    r = b.run("restore", case, revision=C("spec"), target=C("/target"))
    if r is not None:
        got = [c.get("revision") for c in did(r, "CmdLineSource.restore")]
        if got != ["u2"] and r[0][0] != "exc":
            say(r[2], case, f"restores {', '.join(map(str, got)) or 'nothing'}")
    # backup
    for tags, want, force in (("a", ("a",), False), ("a, b", ("a", "b"), True), (" manual:x", ("manual:x",), False)):
        b = Bench(ctx, {"CmdLineSource.backup": 0})
        case = f"backup with tags {tags!r}{', --force' if force else ''}"
        r = b.run("backup", case, repos=b.h.seq("list", [b.repo]), bg=FALSE, tags=C(tags), force=C(force))
        if r is None:
            continue
        made = did(r, "Revision.create")
        checked = did(r, "Repository.validate_tags")
        order = [n for n, _, _ in r[1]]
        if len(made) != 1 or s(*want) not in made[0].values():
            say(r[2], case, "no revision is created" if not made else f"the revision gets {list(made[0].values())[1:2]}")
        elif [v for c in did(r, "CmdLineSource.backup") for v in c.values()] != ["new"]:
            say(r[2], case, "not exactly the new revision is backed up")
        elif "Revision.materialize" not in order[:order.index("CmdLineSource.backup")]:
            say(r[2], case, "the revision is not written before it is backed up")
        elif not force and s(*want) not in [v for c in checked for v in c.values()]:
            say(r[2], case, "the tags are not checked")
        elif force and checked:
            say(r[2], case, "the tags are checked")
        else:
            continue
        break
    # gc
    for expire in (True, False):
        b = Bench(ctx, {"CmdLineSource.gc": 0})
        case = "gc" + (" --expire --local" if expire else "")
        r = b.run("gc", case, repo=b.repo, expire=C(expire), local=TRUE)
        if r is None:
            continue
        order = [n for n, _, _ in r[1] if n in ("Repository.expire", "CmdLineSource.gc")]
        if order != ["Repository.expire"] * expire + ["CmdLineSource.gc"]:
            say(r[2], case, f"does {', '.join(order) or 'nothing'}")


def statuses(ctx, rule):
    def say(f, case, v):
        ctx.finding(rule, f"Command.{f.name}", f"{case}: the result is {show(v)}", f.loc)

    def expect(r, case, bad):
        if r is not None and (fails(r[0]) or works(r[0])) and fails(r[0]) != bad:
            say(r[2], case, r[0])

    for ok in (True, False):
        b = Bench(ctx, {"Repository.tags": ok})
        case = "the tags are " + ("" if ok else "not ") + "changed"
        expect(b.run("tags", case, repo=b.repo, tag_action=C("set"), autoremove=FALSE, expect=NONE, revision=C("spec"),
                     tags=C("a"), force=FALSE), case, not ok)
    for codes in ((0, 0, 0), (0, 2, 0), (1, 0, 0), (0, 0, -9), (-9, 0, 0), (0, -15, 0)):
        b = Bench(ctx, {"CmdLineSource.verify": codes})
        case = f"verifying three revisions ends with {codes}"
        expect(b.run("verify", case, revision=C("spec")), case, any(codes))
    for code in (0, 1, -9, 2):
        b = Bench(ctx, {"CmdLineSource.gc": code})
        case = f"gc ends with {code}"
        expect(b.run("gc", case, repo=b.repo, expire=FALSE, local=TRUE), case, bool(code))
        b = Bench(ctx, {"CmdLineSource.backup": code})
        case = f"the backup ends with {code}"
        expect(b.run("backup", case, repos=b.h.seq("list", [b.repo]), bg=FALSE, tags=C("a"), force=FALSE), case, bool(code))
    for n in (1, 2, 3):
        for what in (None, "aiohttp.ClientResponseError", "aiohttp.ClientConnectionError"):
            for at in range(n if what else 1):
                b = Bench(ctx, {"Client.run_job": [what if i == at else None for i in range(n)]})
                case = f"{n} job{'s' * (n > 1)} to start in the background, " + (
                    f"{'job ' + str(at + 1) + ' answered with ' + what.split('.')[1] if what else 'all accepted'}")
                expect(b.run("backup", case, repos=b.h.seq("list", [b.repo] * n), bg=TRUE, tags=C("a"), force=FALSE), case,
                       bool(what))
