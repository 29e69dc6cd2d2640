"""The command line does what was asked, to what was selected."""
import re

from .c25 import given
from .commands import given as commands_given
from .util import *

LOCAL = {"Command.get_repos", "Repository.rm", "Repository.distrust", "Repository.tags",
         "Repository.expire", "Repository.validate_tags", "Repository._clean", "CmdLineSource.load",
         "CmdLineSource.backup", "CmdLineSource.restore", "CmdLineSource.verify", "CmdLineSource.gc",
         "Revision.create", "Revision.materialize", "Revision.to_dict", "BackyDaemon._read_config",
         "Client.run_job", "Client.reload_daemon", "Client.get_jobs",
         "Client.fetch_status", "Client.list_backups", "Repository.connect"}


# ---------------------------------------------------------------- arguments
class Parsers(Monitor):
    """Collects what is configured on argparse parsers."""

    def __init__(self):
        self.parsers = {}       # term -> dict
        self.calls = []

    @staticmethod
    def base(t):
        while t[0] == "typed" or t[0] == "app" and t[1] in (".add_mutually_exclusive_group",
                                                            ".add_argument_group"):
            t = t[1] if t[0] == "typed" else t[2][0]
        return t

    def of(self, t):
        return self.parsers.setdefault(self.base(t), {"args": {}, "defaults": {}, "name": None,
                                                      "groups": {}, "loc": ""})

    def event(self, ev, st, I):
        n = ev.name
        if ev.kind != "call" or not ev.args and n != "argparse.ArgumentParser":
            return
        if n == "argparse.ArgumentParser":
            self.of(ev.result)["root"] = True
        elif n == ".add_parser":
            d = self.of(ev.result)
            d["name"] = cval(ev.args[1]) if len(ev.args) > 1 else None
            d["loc"] = ev.loc()
            d["parent"] = ev.args[0]
        elif n == ".add_argument":
            names = [cval(a) for a in ev.args[1:] if is_str(a)]
            if not names:
                return
            kw = dict(ev.kw or {})
            kw["flags"] = names
            kw["group"] = ev.args[0] if ev.args[0] != self.base(ev.args[0]) else None
            kw["loc"] = ev.loc()
            long = [x for x in names if x.startswith("--")] or names
            dest = cval(kw["dest"]) if "dest" in kw else long[0].lstrip("-").replace("-", "_")
            self.of(ev.args[0])["args"].setdefault(dest, {})[tuple(names)] = kw
        elif n == ".add_mutually_exclusive_group":
            self.of(ev.args[0])["groups"][ev.result] = dict(ev.kw or {})
        elif n == ".set_defaults":
            self.of(ev.args[0])["defaults"].update(ev.kw or {})


class Main(Parsers):
    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx
        self.dispatched = []

    def init(self):
        return ()

    def event(self, ev, st, I):
        super().event(ev, st, I)
        if ev.kind == "delitem" or ev.kind == "mutate" and ev.name == "pop" or \
                ev.kind == "call" and ev.name == ".pop":
            if len(ev.args) > 1 and is_str(ev.args[1]) and (ev.args[0], cval(ev.args[1])) not in st.mon:
                st.mon = st.mon + ((ev.args[0], cval(ev.args[1])),)
        elif ev.kind in ("call", "enter") and ev.name.endswith("Command.__call__"):
            self.dispatched.append((ev, st))


def flags(kw):
    return "/".join(kw["flags"])


def check_main(ctx):
    m = Main(ctx)
    ctx.run("backy.cli.main", m, opaque={"Command.__call__", "init_logging", "generate_taskid"})
    root = [d for d in m.parsers.values() if d.get("root")]
    subs = [d for d in m.parsers.values() if is_str(d["defaults"].get("func", NONE))]
    cls = ctx.p.cls("Command")
    for d in m.parsers.values():
        top = d.get("parent")
        if len(subs) < 5 or not d["name"] or d["defaults"] or top is None or top[0] != "app" or \
                not top[1].endswith("add_subparsers") or not top[2]:
            continue
        if m.parsers.get(m.base(top[2][0]), {}).get("root"):
            ctx.finding("C22.table", d["name"], f"the subcommand {d['name']} is offered, but does nothing: "
                        "no function is set", d["loc"])
    for d in subs:
        cmd, fn = d["name"] or "?", cval(d["defaults"]["func"])
        ctx.saw("subcommands", cmd)
        f = ctx.p.find_method(cls, fn)
        if f is None:
            ctx.finding("C22.table", cmd, f"the subcommand {cmd} has no implementation: Command.{fn} "
                        "does not exist", d["loc"])
            continue
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg not in
                 ("self", "repo", "repos")]
        nd = len(a.defaults)
        optional = {x.arg for x in (a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - nd:]} if nd \
            else set()
        optional |= {x.arg for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
        for n in names:
            if n not in d["args"] and n not in optional:
                ctx.finding("C22.table", cmd, f"no option of {cmd} provides the parameter {n} of "
                            f"Command.{fn}", d["loc"])
        for dest, uses in d["args"].items():
            ctx.saw("options", f"{cmd} {dest}")
            if dest not in names and not a.kwarg:
                ctx.finding("C22.table", cmd, f"Command.{fn} does not take the option {dest}", d["loc"])
                continue
            ty = next((x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs
                       if x.arg == dest), None)
            isbool = getattr(ty, "id", None) == "bool"
            for kw in uses.values():
                act = cval(kw["action"]) if "action" in kw and is_c(kw["action"]) else \
                    (None if "action" not in kw else "?")
                if isbool and act is None:
                    ctx.finding("C22.table", cmd, f"{flags(kw)} takes a value, but is a flag of "
                                f"Command.{fn}", kw["loc"])
                if isbool and (act == "store_false" and not any("no" in x for x in kw["flags"])
                               or act == "store_true" and kw.get("default") == TRUE):
                    ctx.finding("C22.table", cmd, f"{flags(kw)} does not switch on what it is named "
                                "after", kw["loc"])
                if not isbool and ty is not None and act in ("store_true", "store_false"):
                    ctx.finding("C22.table", cmd, f"{flags(kw)} does not take a value", kw["loc"])
        if fn in ("rm", "reports_delete"):
            for dest, uses in d["args"].items():
                for kw in uses.values():
                    g = d["groups"].get(kw["group"], {})
                    positional = not kw["flags"][0].startswith("-") and kw.get("nargs") not in (
                        C("?"), C("*"))
                    if dest in ("revision", "reports") and "default" in kw and \
                            kw["default"] not in (NONE,) or dest in ("revision", "reports") and not (
                            kw.get("required") == TRUE or g.get("required") == TRUE or positional):
                        ctx.finding("C22.explicit", cmd, f"{cmd} deletes without an explicit selection "
                                    f"({flags(kw)} is not required)", kw["loc"])
    for d in root:
        for dest, uses in d["args"].items():
            for kw in uses.values():
                if dest == "jobs" and kw.get("action") == C("store_const"):
                    c = cval(kw.get("const", C("")))
                    if not isinstance(c, str) or any(not re.search(c, x) for x in ("", "a", "test-1")):
                        ctx.finding("C22.jobs", "main", f"{flags(kw)} does not select all jobs", kw["loc"])
    if not m.dispatched:
        ctx.finding("C22.pass", "main", "no command is run", "")
    glob = {n for d in root for n in d["args"]} | {"func"}
    local = {n for d in subs for n in d["args"]}
    for ev, st in m.dispatched:
        ctx.saw("dispatch", ev.loc())
        args = list(ev.args) + [v for k, v in sorted((ev.kw or {}).items())]
        if len(args) < 3:
            continue
        obj, cmd, kwargs = args[:3]
        if not (cmd[0] == "attr" and cmd[2] == "func"):
            ctx.finding("C22.pass", "main", f"the command run is {show(cmd)}, not the one asked for",
                        ev.loc(), st.path())
        gone = {n for o, n in st.mon if o == kwargs}
        for src in reach(kwargs, st):
            for a, v in given(src):
                if a[0] == "cmp" and a[1] == "in" and not v:
                    its = [x for x in (a[3][1] if a[3][0] == "tuple" else
                                       [i[1] for i in st.heap.get((a[3], "#c"), ()) if i[0] == "v"])]
                    gone |= {cval(x) for x in its if is_str(x)}
                elif a[0] == "cmp" and a[1] == "==" and not v:
                    gone |= {cval(x) for x in a[2:4] if is_str(x)}
        if gone:
            for n in sorted(glob - gone):
                ctx.finding("C22.pass", "main", f"the general option {n} is passed to the command, "
                            "which does not take it", ev.loc(), st.path())
        for n in sorted(gone & local - glob):
            ctx.finding("C22.pass", "main", f"the option {n} does not reach the command", ev.loc(),
                        st.path())
        for attr, dest in (("path", "workdir"), ("config", "config"), ("jobs", "jobs"),
                           ("dry_run", "dry_run")):
            v = st.heap.get((obj, attr))
            if v is not None and not any(s[0] == "attr" and s[2] == dest for s in reach(v, st)):
                ctx.finding("C22.pass", "main", f"the general option {dest} does not become "
                            f"Command.{attr}", ev.loc(), st.path())
    ctx.need("subcommands", 5)
    return subs


# ---------------------------------------------------------------- selection
class Repos(Monitor):
    """state: (element looked at, matched, made a repository)"""
    loops = True
    branches = True

    def __init__(self, ctx):
        self.ctx = ctx

    def init(self):
        return (None, None, False, False, None, False)

    @staticmethod
    def jobs(t):
        return any(s[0] == "app" and s[1].endswith("get_jobs") for s in subterms(t))

    @staticmethod
    def opened(t, st):
        return any(s[0] == "obj" and str(s[2]).endswith("Repository") for s in reach(t, st))

    @staticmethod
    def search(a):
        return a[0] == "app" and a[1].split(".")[-1] in ("search", "match", "fullmatch")

    def report(self, msg, loc, st):
        self.ctx.finding("C22.jobs", "Command.get_repos", msg, loc, st.path())

    def event(self, ev, st, I):
        el, matched, made, nonempty, here, connected = st.mon
        if ev.kind == "iter" and self.jobs(ev.args[0]) and ev.args[1][0] == "elem":
            el, matched, made = ev.args[1], None, False
        elif ev.kind == "fact":
            a, v = ev.args[0], ev.args[1] == TRUE
            t = a
            if a[0] == "cmp" and a[1] == "is" and a[3] == NONE:
                t, v = a[2], not v
            if self.search(t) and mentions(t, C("name")):
                matched = v
                if not t[1].endswith("search"):
                    self.report("the job filter has to match the whole name or its start", ev.loc(), st)
            if a[0] == "cmp" and a[1] == "is" and a[3] == NONE and a[2][0] == "attr" and \
                    a[2][2] == "jobs":
                here = ev.args[1] == TRUE
            elif a[0] == "attr" and a[2] == "jobs":
                here = ev.args[1] != TRUE
            if any(s[0] == "app" and s[1] == "len" for s in subterms(a)) or a[0] in ("obj", "comp"):
                nonempty = nonempty or v
        elif ev.kind == "new" and ev.name.endswith(".Repository"):
            self.ctx.saw("repositories selected", ev.loc())
            t = ev.args[1] if len(ev.args) > 1 else NONE
            if self.jobs(t) and not any(s == C("path") for s in subterms(t)):
                self.report(f"the repository of a job is opened at {show(t)}", ev.loc(), st)
            known = matched
            for a, v in st.facts.items():
                b = a[2] if a[0] == "cmp" and a[1] == "is" and a[3] == NONE else a
                if self.search(b) and mentions(b, C("name")):
                    known = v == (b is a)
            if known is not True and not any(self.search(x) or b and self.search(x)
                                             for x, b in given(t)):
                self.report("jobs are selected that do not match the filter", ev.loc(), st)
            made = True
        elif ev.kind == "call" and ev.name.endswith("Repository.connect"):
            connected = True
        elif ev.kind == "loop" and self.opened(ev.args[0], st):
            connected = "loop"
        elif ev.kind == "iter" and connected and ev.args[1][0] != "elem":
            connected = "iter"
        elif ev.kind == "iterend" and connected == "iter":
            self.report("the history of a selected repository is not loaded", ev.loc(), st)
        elif ev.kind == "iterend" and el is not None and ev.args[1] == el:
            if matched and not made:
                self.report("a job that matches the filter is left out", ev.loc(), st)
            el = None
        elif ev.kind == "loopend" and ev.name in ("break", "return") and self.jobs(ev.args[0]):
            self.report("the selection of jobs stops early", ev.loc(), st)
        st.mon = (el, matched, made, nonempty, here, connected)


def check_repos(ctx):
    m = Repos(ctx)
    I, out, exc = ctx.run("Command.get_repos", m, opaque=LOCAL - {"Command.get_repos"})
    for v, st in out:
        el, matched, made, nonempty, here, connected = st.mon
        ctx.saw("selections", f"jobs is None: {here}")
        own = any(s[0] == "attr" and s[2] == "repository" for s in reach(v, st))
        if here is True and not own:
            m.report("without a job filter, it is not the repository at the given path that is "
                     "worked on", "", st)
        if here is False:
            if own:
                m.report("the job filter is ignored", "", st)
            if not nonempty:
                m.report("a filter that does not match any job is no error", "", st)
            if made and not connected:
                m.report("the history of the selected repositories is not loaded", "", st)
    ctx.need("selections", 1)


# ------------------------------------------------------------------ effects
def sel(t, st, depth=0):
    """(lookup, reason): the look-up of revisions a collection consists of"""
    if depth > 5:
        return None, None
    root, conds, partial = root_of(t)
    if root[0] == "app" and root[1].split(".")[-1] in ("find_revisions", "find", "find_by_uuid"):
        why = partial or (show(next(iter(conds))) if conds else None)
        return root, why
    its = st.heap.get((root, "#c"))
    if its and len(its) == 1 and its[0][0] in ("all", "v"):
        r, why = sel(its[0][1], st, depth + 1)
        return r, why or partial
    return None, None


class Do(Monitor):
    """One subcommand. state: (repository, element, done for the repository, done for the element,
    done at all, failed, known flags)"""
    loops = True
    branches = True

    def __init__(self, ctx, cmd, f):
        self.ctx, self.cmd, self.f = ctx, cmd, f
        self.entry = f"Command.{f.name}"
        self.per_repo = bool({"repo", "repos"} & set(f.all_params()))

    def init(self):
        return (None, None, (), (), (), False, ())

    def report(self, rule, msg, loc, st):
        self.ctx.finding(rule, self.entry, msg, loc, st.path())

    @staticmethod
    def repos(t):
        r = root_of(t)[0]
        return r[0] == "app" and r[1].endswith("get_repos")

    def sym(self, t, name):
        return any(s[0] == "sym" and s[1] == name for s in subterms(t))

    def exactly(self, t, name):
        while t[0] == "typed":
            t = t[1]
        return t[0] == "sym" and t[1] == name

    def bound(self, ev, qual):
        names = self.ctx.p.method(*qual.split(".")).params()
        d = dict(zip(names, ev.args))
        d.update(ev.kw or {})
        return d

    def on_throw(self, exc, st, I):
        e = I.last_event
        if e is not None and e.kind == "call":
            key = self.key(e, st)
            if key:
                r, el, dr, de, da, failed, fl = st.mon
                st.mon = (r, el, tuple(x for x in dr if x != key), tuple(x for x in de if x != key),
                          tuple(x for x in da if x != key), failed, fl)

    def key(self, ev, st):
        n = ev.name.split(".")
        if ev.name.startswith("repo:") and len(n) > 2:
            return ".".join(n[-2:])
        if ev.name in ("print", "rich.print", ".add_row", "fs.unlink", "fs.readfile", "fs.open"):
            return ev.name
        return None

    def event(self, ev, st, I):
        repo, el, drepo, delem, done, failed, fl = st.mon
        if ev.kind == "handler":
            failed = True
        elif ev.kind == "fact":
            a, v = ev.args[0], ev.args[1] == TRUE
            if a[0] == "cmp" and a[1] == "is" and a[3] == NONE and a[2][0] == "sym":
                fl = tuple(x for x in fl if x[0] != a[2][1]) + ((a[2][1], "none" if v else "given"),)
            elif a[0] == "sym":
                if dict(fl).get(a[1]) not in ("none",):
                    fl = tuple(x for x in fl if x[0] != a[1]) + ((a[1], v),)
            elif a[0] == "cmp" and any(s[0] == "app" and s[1] == "len" and self.repos(s[2][0])
                                       for s in subterms(a)):
                many = a[1] == "<" and a[2] == C(1)
                if many or a[1] in ("==", "!=") and C(1) in a[2:4]:
                    v = v if many else v == (a[1] == "!=")
                    fl = tuple(x for x in fl if x[0] != "many") + (("many", v),)
        elif ev.kind == "loop":
            if self.repos(ev.args[0]) and "repos" not in done:
                done = done + ("repos",)
        elif ev.kind == "iter":
            if self.repos(ev.args[0]) and ev.args[1][0] == "elem":
                repo, drepo = ev.args[1], ()
            elif self.items(ev.args[0], st):
                el, delem = ev.args[1], ()
        elif ev.kind == "iterend":
            if el is not None and ev.args[1] == el and self.items(ev.args[0], st):
                self.item(el, delem, fl, ev, st)
                el = None
            elif repo is not None and ev.args[1] == repo:
                if not failed:
                    self.repository(drepo, fl, ev, st)
                repo = None
        elif ev.kind == "loopend" and ev.name in ("break", "return"):
            if self.repos(ev.args[0]) and self.cmd != "backup":
                self.report("C22.all", "the other selected jobs are skipped", ev.loc(), st)
            elif self.items(ev.args[0], st):
                self.report("C22.all", "the rest of what was selected is skipped", ev.loc(), st)
        elif ev.kind == "call":
            k = self.key(ev, st)
            if k:
                self.effect(k, ev, repo, el, drepo, delem, done, dict(fl), st)
                if k not in done:
                    done = done + (k,)
                if k not in drepo:
                    drepo = drepo + (k,)
                if el is not None and k not in delem and (
                        k in ("fs.open", "fs.unlink", "fs.readfile", "print", ".add_row",
                              "CmdLineSource.verify") and any(mentions(a, el) for a in ev.args)
                        or k == "Revision.to_dict"):
                    delem = delem + (k,)
        if any(s[0] == "attr" and s[2] == "dry_run" for a in ev.args for s in subterms(a)):
            self.ctx.saw("dry-run", self.entry)
        st.mon = (repo, el, drepo, delem, done, failed, fl)

    # what the loops of a command go over
    def items(self, t, st):
        if self.cmd in ("rev_parse", "log_", "verify"):
            r = sel(t, st)[0]
            return r is not None
        if self.cmd.startswith("reports_"):
            r = root_of(t)[0]
            return r[0] == "attr" and r[2] == "report_ids" or \
                r[0] == "app" and r[1] == ".split" and self.sym(r, "reports")
        return False

    def item(self, el, de, fl, ev, st):
        c = self.cmd
        self.ctx.saw("items", f"{c} {ev.loc()}")
        want = {"rev_parse": ("print",), "log_": (".add_row", "Revision.to_dict"),
                "verify": ("CmdLineSource.verify",), "reports_list": ("print",),
                "reports_show": ("fs.open", "fs.readfile"), "reports_delete": ("fs.unlink",)}[c]
        if not any(w in de for w in want) and not (c == "log_" and ev.node is not None and
                                                   dict(fl).get("json_") is True):
            if c == "log_" and not hasattr(ev.node, "body"):
                return
            self.report("C22.all", "something that was selected is left out", ev.loc(), st)

    def repository(self, dr, fl, ev, st):
        c, d = self.cmd, dict(fl)
        want = {"rm": "Repository.rm", "distrust": "Repository.distrust", "tags": "Repository.tags",
                "gc": "CmdLineSource.gc"}.get(c)
        if want and want not in dr:
            self.report("C22.all", f"nothing is done for a selected repository ({want} is not "
                        "called)", ev.loc(), st)
        if c == "log_" and not {"print", "rich.print"} & set(dr):
            self.report("C22.effect", "nothing is shown", ev.loc(), st)
        if c == "backup" and "Client.run_job" not in dr and "CmdLineSource.backup" not in dr:
            self.report("C22.all", "no backup is started for a selected job", ev.loc(), st)
        if c == "gc" and d.get("expire") is True and "Repository.expire" not in dr:
            self.report("C22.gc", "gc --expire does not expire revisions", ev.loc(), st)

    def effect(self, k, ev, repo, el, dr, de, done, fl, st):
        c = self.cmd
        if k in ("Repository.rm", "Repository.distrust"):
            self.ctx.saw("effects", f"{c}: {k}")
            b = list(ev.args) + list((ev.kw or {}).values())
            self.selected(b[1] if len(b) > 1 else NONE, b[0], ev, st)
            if c not in ("rm", "distrust") or k != "Repository." + c:
                self.report("C22.effect", f"{k} is called by {c}", ev.loc(), st)
        elif k == "Repository.tags":
            self.ctx.saw("effects", f"{c}: {k}")
            self.tags(ev, fl, st)
        elif k == "CmdLineSource.verify" and c == "verify":
            self.ctx.saw("effects", f"{c}: {k}")
            t = ev.args[1] if len(ev.args) > 1 else NONE
            self.selected(t, None, ev, st)
        elif k == "CmdLineSource.restore":
            self.ctx.saw("effects", f"{c}: {k}")
            b = self.bound(ev, k)
            self.selected(b.get("revision", NONE), None, ev, st)
            a = b.get("args", NONE)
            if not any(s[0] == "sym" and s[1] == "restore_option" for s in reach(a, st)):
                self.report("C22.effect", "the options of restore are not passed on", ev.loc(), st)
        elif k == "Repository.expire":
            self.ctx.saw("effects", f"{c}: {k}")
            if c != "gc" or fl.get("expire") is not True:
                self.report("C22.gc", "revisions are expired without --expire", ev.loc(), st)
            elif fl.get("local") is not True:
                self.report("C22.gc", "revisions are expired without --local, although the other servers' "
                            "changes are not known", ev.loc(), st)
            if "CmdLineSource.gc" in dr:
                self.report("C22.gc", "revisions are expired after the garbage collection, which "
                            "does not free their data", ev.loc(), st)
        elif k == "CmdLineSource.gc":
            self.ctx.saw("effects", f"{c}: {k}")
        elif k == "CmdLineSource.backup":
            self.ctx.saw("effects", f"{c}: {k}")
            b = self.bound(ev, k)
            r = b.get("revision", NONE)
            if not any(s[0] == "app" and s[1].endswith("Revision.create") for s in subterms(r)):
                self.report("C22.backup", f"the program backs up {show(r)}, not the revision just "
                            "created", ev.loc(), st)
            if "Revision.materialize" not in done:
                self.report("C22.backup", "the new revision is not written before the program that "
                            "looks it up is run", ev.loc(), st)
            if fl.get("bg") is True or fl.get("many") is not False and "repos" not in done:
                self.report("C22.backup", "the backup is run directly although the daemon shall run "
                            "it", ev.loc(), st)
        elif k == "Client.run_job":
            self.ctx.saw("effects", f"{c}: {k}")
            if fl.get("bg") is False and fl.get("many") is False:
                self.report("C22.backup", "the daemon runs the backup although --bg was not given",
                            ev.loc(), st)
            if repo is not None and not any(mentions(a, repo) for a in ev.args[1:]):
                self.report("C22.backup", f"the daemon runs {show(ev.args[-1])}", ev.loc(), st)
        elif k == "Revision.create":
            b = self.bound(ev, k)
            t = b.get("tags", NONE)
            if not any(s[0] == "sym" and s[1] == "tags" for s in reach(t, st)):
                self.report("C22.backup", "the new revision does not get the tags given", ev.loc(), st)
            if fl.get("force") is not True and "Repository.validate_tags" not in done:
                self.report("C22.backup", "the tags are not validated although --force was not given",
                            ev.loc(), st)
        elif k == "Repository.validate_tags":
            if fl.get("force") is True and c in ("backup",):
                self.report("C22.backup", "the tags are validated in spite of --force", ev.loc(), st)
        elif k == "print" and c == "rev_parse" and el is not None and len(ev.args):
            t = ev.args[0]
            uuid = t == ("attr", el, "uuid") or t[0] == "attr" and t[2] == "uuid"
            self.ctx.saw("effects", f"{c}: {k}")
            if mentions(t, el) and "uuid" in fl and fl["uuid"] != uuid:
                self.report("C22.effect", "--uuid " + ("is ignored" if fl["uuid"] else
                            "is implied"), ev.loc(), st)
        elif k == "fs.unlink":
            self.ctx.saw("effects", f"{c}: {k}")
            p = ev.args[0]
            if c != "reports_delete":
                self.report("C22.effect", f"{c} deletes {show(p)}", ev.loc(), st)
            elif el is not None:
                given_ = self.sym(el, "reports")
                if fl.get("reports") in ("none", False) and given_ or \
                        fl.get("reports") not in ("none", False) and not given_:
                    self.report("C22.effect", "other reports are deleted than those asked for",
                                ev.loc(), st)
                if not mentions(p, el):
                    self.report("C22.effect", f"{show(p)} is deleted", ev.loc(), st)
        elif k in ("fs.open", "fs.readfile") and c == "reports_show" and el is not None:
            given_ = self.sym(el, "reports")
            if fl.get("reports") in ("none", False) and given_ or \
                    fl.get("reports") not in ("none", False) and not given_:
                self.report("C22.effect", "other reports are shown than those asked for", ev.loc(), st)

    def selected(self, t, repo, ev, st):
        look, why = sel(t, st)
        if look is None:
            if t[0] in ("attr",) and t[2] == "history" or not self.sym_reach(t, "revision", st):
                self.report("C22.selection", f"{show(t)} is worked on, not the revisions asked for",
                            ev.loc(), st)
            return
        if not any(self.exactly(a, "revision") for a in look[2][1:]) and \
                not any(self.exactly(v, "revision") for _, v in look[3]):
            self.report("C22.selection", f"the revisions worked on are those of {show(look)}, not of "
                        "the specification given", ev.loc(), st)
        if why:
            self.report("C22.selection", f"not all of the revisions asked for are worked on ({why})",
                        ev.loc(), st)
        if repo is not None and look[2] and look[2][0] != repo and not mentions(look[2][0], repo):
            self.report("C22.selection", "the revisions are looked up in another repository", ev.loc(),
                        st)

    def sym_reach(self, t, name, st):
        return any(s[0] == "sym" and s[1] == name for s in reach(t, st))

    def tags(self, ev, fl, st):
        b = self.bound(ev, "Repository.tags")
        names = self.ctx.p.method("Repository", "tags").params()
        def bad(msg):
            self.report("C22.tags", msg, ev.loc(), st)
        for param, sym in (("action", "tag_action"), ("revision", "revision"),
                           ("autoremove", "autoremove"), ("force", "force")):
            cand = [n for n in names if n.startswith(param[:6])]
            if not cand:
                continue
            v = b.get(cand[0])
            if v is None or is_c(v):
                s = dict(fl).get(sym)
                if v is not None and isinstance(s, bool) and v == C(s):
                    continue
                bad(f"{sym} is not passed on" + (f" ({show(v)} instead)" if v is not None else ""))
            elif not self.sym_reach(v, sym, st):
                bad(f"{show(v)} is passed on as {sym}")
        t = b.get("tags", NONE)
        if not self.sym_reach(t, "tags", st):
            bad(f"{show(t)} is passed on as the tags")
        e = b.get("expect", NONE)
        if fl.get("expect") == "none":
            if e != NONE:
                bad("tags are expected although --expect was not given")
        elif not self.sym_reach(e, "expect", st):
            bad("the expected tags are not passed on")

    def over(self, out):
        for v, st in out:
            repo, el, dr, de, done, failed, fl = st.mon
            if failed:
                continue
            self.ctx.saw("outcomes", f"{self.cmd}: {v[0]}")
            if self.per_repo and "repos" not in done and self.cmd not in (
                    "backup", "show_jobs", "gc"):
                self.report("C22.all", "the selected repositories are not worked on", "", st)
            want = {"verify": None, "restore": "CmdLineSource.restore",
                    "reload_daemon": "Client.reload_daemon"}.get(self.cmd)
            if want and want not in done:
                self.report("C22.effect", f"nothing is done ({want} is not called)", "", st)
            if self.cmd == "backup" and "repos" not in done and "CmdLineSource.backup" not in done:
                if dict(fl).get("bg") is False and dict(fl).get("many") is False:
                    self.report("C22.backup", "no backup is made", "", st)


def check(ctx):
    ctx.rule("C22.table", "every subcommand is implemented; its options are the parameters it takes")
    ctx.rule("C22.explicit", "what deletes needs an explicit selection")
    ctx.rule("C22.pass", "options reach the command, general ones its environment")
    ctx.rule("C22.jobs", "the job filter selects the matching jobs, none is an error")
    ctx.rule("C22.selection", "the revisions worked on are all those of the specification")
    ctx.rule("C22.all", "every selected repository and item is worked on")
    ctx.rule("C22.effect", "the command does what it is named after")
    ctx.rule("C22.tags", "tags: every option is passed on")
    ctx.rule("C22.gc", "gc: revisions are expired with --expire only, and first")
    ctx.rule("C22.backup", "backup: the new revision is backed up, by the one asked to do it")
    ctx.rule("C22.dryrun", "--dry-run: nothing is modified")
    ctx.rule("C22.given", "what subcommands have done when given constants (constant propagation)")
    subs = check_main(ctx)
    check_repos(ctx)
    commands_given(ctx, "C22.given")
    op = {x for x in LOCAL if ctx.p.try_method(*x.split("."))}
    cls = ctx.p.cls("Command")
    dispatch = ctx.p.method("Command", "__call__")
    for name in sorted({cval(d["defaults"]["func"]) for d in subs}):
        f = ctx.p.find_method(cls, name)
        if f is None:
            continue
        m = Do(ctx, name, f)
        kw = [(n, ("sym", n, None)) for n in f.all_params()
              if n not in ("self", "repo", "repos") and not (f.node.args.kwarg and
                                                             n == f.node.args.kwarg.arg)]
        if f.node.args.kwarg:
            kw.append(("restore_option", ("sym", "restore_option", None)))
        if name.startswith(("show_", "check")):
            continue
        I, out, exc = ctx.run(dispatch, m, opaque=op | {"format_datetime_local"},
                              args={dispatch.params()[1]: C(name),
                                    dispatch.params()[2]: ("kwdict", tuple(sorted(kw)))})
        m.over(out)
    if not ctx.sites.get("dry-run"):
        ctx.finding("C22.dryrun", "Command", "no subcommand looks at --dry-run", "")
    ctx.need("effects", 5)
    ctx.need("outcomes", 5)
