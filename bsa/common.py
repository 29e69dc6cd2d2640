"""Shared set-up of the analyses: models for functions no rule looks into."""
from . import interp
from .interp import Event, Interp, Monitor

LOOKUP = {
    "backy.repository.Repository.find_revisions",
    "backy.repository.Repository.find",
}


def scan_model(I, fv, args, kw, st, node, fr):
    """Repository.scan: the history becomes a fresh unknown list of revisions."""
    f = I.p.funcs[fv[1]]
    repo = args[0] if args else fv[3]
    st = st.copy()
    rc = I.p.cls("Revision")
    val = ("typed", I.app(fr, node, "scan", (repo,)), ("list", ("cls", rc.qual)))
    for k in [k for k in st.heap if k[0] == repo and k[1] in ("history", "_by_uuid")]:
        del st.heap[k]
    st.heap[(repo, "history")] = val
    # what was known about the revisions loaded before no longer applies
    I.emit(Event("call", "repo:" + f.qual, tuple(args), kw, node, fr, interp.NONE), st)
    I.throw(("exc", "Exception", False), st)
    return [(interp.NONE, st)]


SCAN = {"backy.repository.Repository.scan": scan_model}


def make(prog, mon, opaque=(), scan=True, lookup=True, **kw):
    op = set(opaque)
    if lookup:
        op |= LOOKUP
    subst = dict(kw.pop("subst", {}))
    if scan:
        subst.update(SCAN)
    return Interp(prog, mon, opaque=op, subst=subst, **kw)


import ast as _ast


def is_simple(f):
    """A function whose body is one return: a name for an expression."""
    if f.is_lambda:
        return True
    if f.is_gen or f.is_async:
        return False
    body = [s for s in f.node.body
            if not (isinstance(s, _ast.Expr) and isinstance(s.value, _ast.Constant))
            and not isinstance(s, _ast.Assert)]
    if not body or not isinstance(body[-1], _ast.Return):
        return False
    return all(isinstance(s, _ast.Assign) for s in body[:-1]) and len(body) <= 4


class Collect(Monitor):
    def __init__(self, want=None):
        self.out = []
        self.seen = set()
        self.want = want

    def event(self, ev, st, I):
        if self.want is None or self.want(ev):
            k = (ev.kind, ev.name, ev.args, id(ev.node))
            if k not in self.seen:
                self.seen.add(k)
                self.out.append((ev, st.trace, I))


def local_events(prog, want=None, skip=()):
    """Every function of the repository on its own, with symbolic arguments:
    (func, event) for the calls it makes itself (or through one-expression
    helpers)."""
    res = []
    for f in prog.funcs:
        if f.is_lambda or f.qual in skip:
            continue
        m = Collect(want)
        I = make(prog, m, inline=is_simple)
        try:
            I.run_raw(f)
        except interp.Budget:
            pass
        res += [(f, ev) for ev, _, _ in m.out]
    return res
