"""backy and the programs that do the work of a source agree on what they tell each other."""
from ..terms import strcat
from .c17 import expand
from .c22 import Parsers, flags
from .programs import options, stored
from .util import *

OPS = ("backup", "restore", "verify", "gc")
SRC = {"CmdLineSource.load", "Repository.find_by_uuid", "init_logging", "generate_taskid",
       "Repository.connect"}


class Words(Monitor):
    """Collects the command lines."""

    def __init__(self):
        self.cmds = []

    def event(self, ev, st, I):
        if ev.kind == "call" and ev.name == "proc.spawn":
            a = ev.args[0] if len(ev.args) == 1 else ("tuple", tuple(ev.args))
            self.cmds.append((expand(a, st), ev, st))


def actions(parsers, name=None):
    for d in parsers.values():
        if d.get("root") and name is None or name is not None and d["name"] == name:
            return d
    return None


def parse(words, args):
    """What argparse makes of the words: ({dest: term}, rest, error)"""
    res, pos, i = {}, [], 0
    byflag, positionals = {}, []
    for dest, uses in args.items():
        for fl, kw in uses.items():
            for f in fl:
                if f.startswith("-"):
                    byflag[f] = (dest, kw)
            if not fl[0].startswith("-"):
                positionals.append((dest, kw))
    while i < len(words):
        w, val = words[i], None
        if w is not None and w[0] == "str" and is_str(w[1][0]) and "=" in w[1][0][2]:
            name, _, val = w[1][0][2].partition("=")
            w, val = C(name), strcat(((C(val),) if val else ()) + w[1][1:])
        if w is not None and is_str(w) and w[2].startswith("-") and len(w[2]) > 1:
            name, eq, v = w[2].partition("=")
            val = C(v) if eq else val
            if name not in byflag:
                return res, words[i:], f"{name} is no option of the program"
            dest, kw = byflag[name]
            act = cval(kw["action"]) if "action" in kw and is_c(kw["action"]) else None
            if act in ("store_true", "store_false", "store_const"):
                res[dest] = C(act != "store_false")
            elif val is not None:
                res[dest] = val
            else:
                i += 1
                if i >= len(words):
                    return res, [], f"{name} has no value"
                res[dest] = words[i] if words[i] is not None else ("unknown",)
        else:
            if len(pos) < len(positionals):
                res[positionals[len(pos)][0]] = w if w is not None else ("unknown",)
                pos.append(w)
            else:
                return res, words[i:], None
        i += 1
    missing = [d for d, kw in positionals[len(pos):] if kw.get("nargs") not in (C("?"), C("*"))]
    missing += [d for f, (d, kw) in byflag.items() if kw.get("required") == TRUE and d not in res]
    return res, [], f"the program expects {missing[0]}" if missing else None


class Program_(Monitor):
    """The source program. state: (verb, done, looked up)"""
    branches = True

    def __init__(self, ctx, entry, src):
        self.ctx, self.entry, self.src = ctx, entry, src

    def init(self):
        return (None, (), False, False)

    def report(self, rule, msg, loc, st, entry=None):
        self.ctx.finding(rule, entry or self.entry, msg, loc, st.path())

    def on_throw(self, exc, st, I):
        e = I.last_event
        if e is not None and e.name.startswith(f"repo:") and e.name.split(".")[-2] == self.src:
            st.mon = (st.mon[0], ()) + st.mon[2:]

    def event(self, ev, st, I):
        verb, done, failed, loaded = st.mon
        if ev.kind == "handler":
            failed = True
        elif ev.kind == "fact":
            a, v = ev.args[0], ev.args[1] == TRUE
            if a[0] == "cmp" and a[1] == "==" and v and any(
                    s[0] == "attr" and s[2] == "func" for s in subterms(a)):
                verb = next((cval(x) for x in a[2:4] if is_str(x)), verb)
        elif ev.kind == "call":
            q = ev.name.split(".")
            if q[-1] in OPS and ev.name == "." + q[-1] and not any(
                    s[0] == "app" and s[1].endswith("from_config") for s in subterms(ev.args[0])):
                pass
            elif q[-1] in OPS and (q[-2] in (self.src, "")):
                self.ctx.saw("operations", f"{self.entry}: {q[-1]}")
                if verb is not None and q[-1] != verb:
                    self.report("C29.verb", f"{verb} does {q[-1]}", ev.loc(), st)
                done = done + (q[-1],)
                if q[-1] != "gc":
                    r = ev.args[1] if len(ev.args) > 1 else NONE
                    look = [s for s in subterms(r) if s[0] == "app" and s[1].endswith("find_by_uuid")]
                    if not look:
                        self.report("C29.verb", f"{q[-1]}: the revision is not looked up by the uuid "
                                    f"given ({show(r)})", ev.loc(), st)
                    elif not any(s[0] == "attr" and s[2] == "revision" for s in subterms(look[0])):
                        self.report("C29.verb", f"{q[-1]}: the revision looked up is {show(look[0])}",
                                    ev.loc(), st)
                if q[-1] == "restore":
                    a = ev.args[2] if len(ev.args) > 2 else NONE
                    if not any(s[0] == "app" and (s[1].endswith(".parse_args") or s[1].endswith(
                            ".from_args")) for s in reach(a, st)):
                        self.report("C29.restore", "the options of restore are not used", ev.loc(), st)
            elif q[-1] == "load" and q[-2] == "CmdLineSource" and ev.name.startswith("repo:"):
                loaded = True
                if not any(s[0] == "attr" and s[2] == "workdir" for a in ev.args for s in subterms(a)):
                    self.report("C29.words", "the repository given with -C is not the one used",
                                ev.loc(), st)
            elif q[-1] == "init_logging":
                vals = [s for a in list(ev.args) + list((ev.kw or {}).values()) for s in reach(a, st)]
                self.ctx.saw("task ids", self.entry)
                if not any(s[0] == "attr" and s[2] == "taskid" for s in vals):
                    self.report("C29.taskid", "the task id given is not used in the log", ev.loc(), st)
        st.mon = (verb, done, failed, loaded)

    def over(self, out):
        for v, st in out:
            verb, done, failed, loaded = st.mon
            if failed:
                if v == C(0) or v == NONE or v == FALSE:
                    self.report("C29.verb", "an error is reported as success", "", st)
                continue
            if verb in OPS and verb not in done:
                self.report("C29.verb", f"{verb} ends without doing anything", "", st)


def backy(ctx, parsers):
    """The command lines of backy against the parser of the program."""
    root = actions(parsers)
    for cls in ("CmdLineSource", "AsyncCmdLineSource"):
        if ctx.p.try_method(cls, "backup") is None:
            continue
        for op in OPS:
            m = Words()
            subst = {}
            entry = f"{cls}.{op}"
            fargs = {"revision": ("typed", ("sym", "revision", None),
                                  ("cls", ctx.p.cls("Revision").qual))}
            f = ctx.p.method(cls, op)
            args = {n: v for n, v in fargs.items() if n in f.params()}
            ctx.run(entry, m, args=args, opaque={"generate_taskid"})
            if not m.cmds:
                ctx.finding("C29.words", entry, "no program is run", "")
            for words, ev, st in m.cmds:
                ctx.saw("command lines", f"{entry}: {' '.join(show(w) if w else '?' for w in words)}")
                prog = words[0] if words else None
                if prog is None or not (text(prog) == "backy-" or text(prog).startswith("backy-")):
                    if prog is not None:
                        ctx.finding("C29.words", entry, f"the program run is {show(prog)}", ev.loc(),
                                    st.path())
                elif not any(s == C("type") for s in subterms(prog)) and not any(
                        s[0] == "attr" and s[2] == "type_" for s in subterms(prog)):
                    ctx.finding("C29.words", entry, f"the program run ({show(prog)}) does not depend "
                                "on the type of the source", ev.loc(), st.path())
                if op == "restore" and not any(s[0] == "app" and s[1].endswith("to_cmdargs")
                                               for a in ev.args for s in reach(a, st)):
                    ctx.finding("C29.restore", entry, "the options of restore are not passed on",
                                ev.loc(), st.path())
                if None in words[1:]:
                    words = words[:words.index(None, 1)] if op == "restore" else words
                if None in words:
                    continue
                got, rest, err = parse(words[1:], root["args"])
                if err:
                    ctx.finding("C29.words", entry, err, ev.loc(), st.path())
                    continue
                wd = got.get("workdir")
                if wd is None or not any(s[0] == "attr" and s[2] == "path" for s in subterms(wd)):
                    ctx.finding("C29.words", entry, "the program is not told the repository (-C)",
                                ev.loc(), st.path())
                tid = got.get("taskid")
                if tid is None or not any(s in (C("taskid"), C("subtaskid")) for s in reach(tid, st)):
                    ctx.finding("C29.taskid", entry, "the program is not told the task id", ev.loc(),
                                st.path())
                if not rest or rest[0] is None or not is_str(rest[0]):
                    ctx.finding("C29.words", entry, "the program is not told what to do", ev.loc(),
                                st.path())
                    continue
                sub = actions(parsers, rest[0][2])
                if sub is None:
                    ctx.finding("C29.words", entry, f"the program has no subcommand {rest[0][2]}",
                                ev.loc(), st.path())
                    continue
                fn = cval(sub["defaults"].get("func", NONE))
                if fn != op:
                    ctx.finding("C29.words", entry, f"the program does {fn}", ev.loc(), st.path())
                own = {d: u for d, u in sub["args"].items() if all(
                    not mentions(kw["group"] or NONE, ("sym", "restore", None)) for kw in u.values())}
                if op == "restore":
                    own = {d: u for d, u in own.items() if d == "revision"}
                    got, rest, err = parse(rest[1:2], own)
                else:
                    got, rest, err = parse(rest[1:], own)
                if err or rest:
                    ctx.finding("C29.words", entry, err or f"the program does not take "
                                f"{', '.join(map(show, rest))}", ev.loc(), st.path())
                    continue
                if "revision" in own:
                    r = got["revision"]
                    if r[0] == "attr" and r[2] != "uuid" or not any(
                            s[0] == "sym" and s[1] == "revision" for s in subterms(r)):
                        ctx.finding("C29.words", entry, f"the program gets {show(r)} as the uuid of "
                                    "the revision", ev.loc(), st.path())


def text(t):
    s = [s[2] for s in subterms(t) if is_str(s)]
    return next((x for x in s if x.startswith("backy")), s[0] if s else "")


def restore_args(ctx, cls):
    """RestoreArgs -> words -> argparse -> RestoreArgs is the identity."""
    c = ctx.p.cls(cls)
    entry = f"{cls}.to_cmdargs"
    P = Parsers()
    P.parsers[("sym", "restore", None)] = {"args": {}, "defaults": {}, "name": None, "groups": {},
                                           "loc": ""}
    f = ctx.p.method(cls, "setup_argparse")
    ctx.run(f, P, args={f.params()[-1]: ("sym", "restore", None)},
            self_val=("class", c.qual))
    table = P.parsers[("sym", "restore", None)]["args"]
    options(ctx, cls, table, parse)

    m = Monitor()
    I, out, exc = ctx.run(ctx.p.method(cls, "to_cmdargs"), m)
    sent = None
    for v, st in out:
        words = expand(v, st)
        ctx.saw("restore options", f"{cls}: {' '.join(show(w) if w else '?' for w in words)}")
        if None in words:
            return
        got, rest, err = parse(words, table)
        if err or rest:
            ctx.finding("C29.restore", entry, err or f"the program does not take "
                        f"{', '.join(map(show, rest))}", "", st.path())
            return
        sent = dict(sent or {}, **got)     # (one that is left out sometimes: C29.values)
    f = ctx.p.method(cls, "from_args")
    I, out, exc = ctx.run(f, Monitor(), self_val=("class", c.qual))
    for v, st in out:
        for k, x in st.heap.items():
            if k[0] == v and isinstance(k[1], str) and not k[1].startswith("#"):
                field = k[1]
                keys = [cval(s[2]) for s in reach(x, st) if s[0] == "idx" and is_str(s[2])]
                keys += [cval(s[2][1]) for s in reach(x, st) if s[0] == "app" and s[1] == ".get"
                         and len(s[2]) > 1 and is_str(s[2][1])]
                ctx.saw("restore fields", f"{cls}.{field} {keys}")
                if len(keys) != 1:
                    if not keys and x[0] in ("c", "enum") and table:
                        ctx.finding("C29.restore", f"{cls}.from_args", f"the option {field} is ignored",
                                    "", st.path())
                    continue
                if keys[0] not in table:
                    ctx.finding("C29.restore", f"{cls}.from_args", f"there is no option {keys[0]}", "",
                                st.path())
                elif sent is not None:
                    w = sent.get(keys[0])
                    if w is None:
                        ctx.finding("C29.restore", entry, f"the program is not told {field}", "",
                                    st.path())
                    elif w[0] != "unknown" and not any(
                            s[0] == "attr" and s[2] == field for s in subterms(w)):
                        ctx.finding("C29.restore", entry, f"the program gets {show(w)} as {field}", "",
                                    st.path())


def holds(t, attr):
    """The whole value of the attribute, converted at most"""
    while t[0] in ("app", "typed") and (t[0] == "typed" or len(t[2]) == 1):
        t = t[1] if t[0] == "typed" else t[2][0]
    return t[0] == "attr" and (t[2] == attr or attr == "schedule" and t[2] == "config" and holds(
        t[1], attr)) or t[0] in ("loop", "sym")


def config(ctx):
    """CmdLineSource.to_config -> from_config"""
    I, out, exc = ctx.run("CmdLineSource.to_config", Monitor())
    wrote = {}
    for v, st in out:
        for k, x in st.heap.get((v, "#k"), ()):
            wrote[cval(k)] = x

    class New(Monitor):
        def __init__(s):
            s.reads = []

        def event(s, ev, st, I):
            if ev.kind == "new":
                s.reads.append((ev, st))
            if ev.kind == "call" and ev.name.endswith("Schedule.configure"):
                s.reads.append((ev, st))
    m = New()
    f = ctx.p.method("CmdLineSource", "from_config")
    n = f.params()[1]
    I, out, exc = ctx.run(f, m, args={n: ("sym", "config", ("dict", None, None))},
                          opaque={"Repository.connect", "Schedule.configure"})
    want = {"path": "path", "source": "source_conf", "schedule": "schedule"}
    def keys(t, st):
        return {cval(s[2]) for s in reach(t, st) if s[0] == "idx" and s[1][0] == "sym"
                and s[1][1] == "config"} | {
            cval(s[2][1]) for s in reach(t, st) if s[0] == "app" and s[1] == ".get" and len(s[2]) > 1
            and s[2][0][0] == "sym" and s[2][0][1] == "config"}
    for ev, st in m.reads:
        cls = ev.name.split(".")[-1]
        for i, (part, attr) in enumerate((("Repository", "path"), ("CmdLineSource", "source"),
                                          ("configure", "schedule"))):
            if cls != part:
                continue
            vals = list(ev.args[1:]) + list((ev.kw or {}).values())
            ks = set().union(*[keys(a, st) for a in vals]) if vals else set()
            ctx.saw("configuration", f"{part} {sorted(map(str, ks))}")
            if wrote and not any(k in wrote and holds(
                    wrote[k], want[attr]) for k in ks) and ks:
                ctx.finding("C29.config", "CmdLineSource.from_config", f"{part} is made of "
                            f"{', '.join(map(str, sorted(ks)))}, which is not where to_config puts "
                            f"the {attr}", ev.loc(), st.path())
            if not ks:
                ctx.finding("C29.config", "CmdLineSource.from_config", f"{attr} is not read from the "
                            "configuration", ev.loc(), st.path())


def check(ctx):
    ctx.rule("C29.words", "the command lines of backy are what the program's parser takes")
    ctx.rule("C29.verb", "the program does what it is told, to the revision it is told")
    ctx.rule("C29.restore", "restore options arrive with their values")
    ctx.rule("C29.taskid", "the task id is passed on")
    ctx.rule("C29.config", "the program reads the configuration where backy writes it")
    P = Parsers()
    f = ctx.p.method("Source", "create_argparse")
    ctx.run(f, P, self_val=("class", ctx.p.cls("RBDSource").qual), opaque={"generate_taskid",
            "RBDRestoreArgs.setup_argparse"})
    backy(ctx, P.parsers)
    for mod, src in (("backy.rbd", "RBDSource"), ("backy.file", "FileSource")):
        m = Program_(ctx, f"{mod}.main", src)
        ops = {f"{src}.{o}" for o in OPS if ctx.p.try_method(src, o)} | {
            f"{src}.from_config", src.replace("Source", "RestoreArgs") + ".from_args"}
        I, out, exc = ctx.run(ctx.p.method(src, "main"), m, opaque=SRC | ops | {
            "Source.create_argparse"}, self_val=("class", ctx.p.cls(src).qual))
        m.over(out)
        for cls in (c for c in (src.replace("Source", "RestoreArgs"),)):
            restore_args(ctx, cls)
    config(ctx)
    ctx.rule("C29.values", "every restore option is taken by the program and arrives with the value it had (constants)")
    ctx.rule("C29.store", "the configuration is written where the program reads it, whatever is there (constants)")
    stored(ctx)
    ctx.need("command lines", 4)
    ctx.need("operations", 4)
    ctx.need("restore fields", 1)
    ctx.need("configuration", 2)
