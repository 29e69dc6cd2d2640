"""Loops over a collection written another way, as the for loops they are:

    it = iter(X); while True: try: t = next(it) except StopIteration: break; ...
    for i in range(len(xs)): ... xs[i] ...
    i = 0; while i < len(xs): ... xs[i] ...; i += 1
    todo = list(X); while todo: t = todo.pop(0); ...
    for i, t in enumerate(X): ... (without i)

Only where nothing else is done with the iterator, index or list, so that it makes no difference."""
import ast

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
MUTATE = {"append", "remove", "pop", "insert", "clear", "extend", "sort", "reverse", "popleft", "appendleft", "add",
          "discard", "update"}


def is_name(n, x=None):
    return isinstance(n, ast.Name) and (x is None or n.id == x)


def call_of(n, *names, args=1):
    """arguments of a call of one of these builtins"""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in names and not n.keywords \
            and len(n.args) == args:
        return n.args


def uses(nodes, x):
    return [n for s in nodes for n in ast.walk(s) if is_name(n, x)]


def stores(nodes, x):
    r = [n for n in uses(nodes, x) if not isinstance(n.ctx, ast.Load)]
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.arg) and n.arg == x or isinstance(n, (ast.Global, ast.Nonlocal)) and x in n.names \
                    or isinstance(n, ast.ExceptHandler) and n.name == x:
                r.append(n)
    return r


def level(stmts, kind):
    """break/continue statements belonging to the loop with this body"""
    for s in stmts:
        if isinstance(s, kind):
            yield s
        elif not isinstance(s, FN + (ast.For, ast.AsyncFor, ast.While, ast.ClassDef)):
            for f in ("body", "orelse", "finalbody"):
                yield from level(getattr(s, f, None) or [], kind)
            for h in getattr(s, "handlers", ()):
                yield from level(h.body, kind)
            for c in getattr(s, "cases", ()):
                yield from level(c.body, kind)
        elif not isinstance(s, FN + (ast.ClassDef,)):
            yield from level(s.orelse, kind)


def mutated(stmts, x):
    """is the list x (not) left as it is here?"""
    for s in stmts:
        for n in ast.walk(s):
            if is_name(n, x) and not isinstance(n.ctx, ast.Load):
                return True
            if isinstance(n, ast.Subscript) and is_name(n.value, x) and not isinstance(n.ctx, ast.Load):
                return True
            if isinstance(n, ast.Attribute) and is_name(n.value, x) and n.attr in MUTATE:
                return True
    return False


class Item(ast.NodeTransformer):
    """xs[i] -> the element"""

    def __init__(self, xs, i, to):
        self.xs, self.i, self.to = xs, i, to

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if is_name(n.value, self.xs) and is_name(n.slice, self.i) and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Name(self.to, ast.Load()), n)
        return n


class Loops:
    def __init__(self):
        self.n = 0

    def visit(self, tree):
        for f in ast.walk(tree):
            if isinstance(f, FN):
                self.fn = f
                self.blocks(f)
        return tree

    def blocks(self, node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for s in b:
                    if not isinstance(s, FN + (ast.ClassDef,)):
                        self.blocks(s)
                setattr(node, f, self.block(b))
        for h in getattr(node, "handlers", ()):
            self.blocks(h)
        for c in getattr(node, "cases", ()):
            self.blocks(c)

    def block(self, b):
        i = 0
        while i < len(b):
            s = b[i]
            r = None
            if isinstance(s, ast.While) and not s.orelse:
                r = self.by_next(b, i) or self.by_index(b, i) or self.by_pop(b, i)
            elif isinstance(s, ast.For):
                r = self.by_range(s) or self.by_enumerate(s)
            if r is not None:
                b = r if isinstance(r, list) else b[:i] + [r] + b[i + 1:]
                i = b.index(self.new)
            i += 1
        return b

    def loop(self, old, target, it, body):
        # for x in X: t = x; ...
        x = target.elts[1] if isinstance(target, ast.Tuple) and len(target.elts) == 2 else target
        if is_name(x) and body and isinstance(body[0], ast.Assign) and len(body[0].targets) == 1 and is_name(
                body[0].value, x.id) and len(uses(body, x.id)) == 1 and len(
                [n for n in uses([self.fn], x.id) if isinstance(n.ctx, ast.Load)]) <= 1:
            t, body = body[0].targets[0], body[1:]
            target = t if x is target else ast.Tuple([target.elts[0], t], ast.Store())
        self.new = ast.fix_missing_locations(ast.copy_location(
            ast.For(target, it, body or [ast.copy_location(ast.Pass(), old)], []), old))
        return self.new

    def fresh(self):
        self.n += 1
        return f"<item {self.n}>"

    def assigned(self, b, i, x):
        """index of the one assignment to x, before b[i] in the block"""
        if len(stores([self.fn], x)) != 1:
            return None
        for j in range(i):
            s = b[j]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and is_name(s.targets[0], x):
                return j
        return None

    # it = iter(X), next(it)
    def by_next(self, b, i):
        s = b[i]
        target = it = body = None
        t = s.test
        if isinstance(t, ast.Constant) and t.value is True and s.body:
            f = s.body[0]
            if isinstance(f, ast.Try) and len(f.body) == 1 and len(f.handlers) == 1 and not f.finalbody and is_name(
                    f.handlers[0].type, "StopIteration") and len(f.handlers[0].body) == 1 and isinstance(
                    f.handlers[0].body[0], ast.Break):
                a = f.body[0]
                if isinstance(a, ast.Assign) and len(a.targets) == 1 and call_of(a.value, "next"):
                    target, it, body = a.targets[0], a.value.args[0], f.orelse + s.body[1:]
            elif isinstance(f, ast.Assign) and len(f.targets) == 1 and is_name(f.targets[0]) and call_of(
                    f.value, "next", args=2) and len(s.body) > 1:
                g = s.body[1]
                if isinstance(g, ast.If) and len(g.body) == 1 and isinstance(g.body[0], ast.Break) and isinstance(
                        g.test, ast.Compare) and len(g.test.ops) == 1 and isinstance(g.test.ops[0], ast.Is) and is_name(
                        g.test.left, f.targets[0].id) and ast.dump(g.test.comparators[0]) == ast.dump(f.value.args[1]):
                    target, it, body = f.targets[0], f.value.args[0], g.orelse + s.body[2:]
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.IsNot) and isinstance(
                t.left, ast.NamedExpr) and call_of(t.left.value, "next", args=2) and ast.dump(
                t.left.value.args[1]) == ast.dump(t.comparators[0]):
            target, it, body = ast.Name(t.left.target.id, ast.Store()), t.left.value.args[0], s.body
        if target is None or not is_name(it):
            return None
        j = self.assigned(b, i, it.id)
        if j is None or len(uses([self.fn], it.id)) != 2 or not call_of(b[j].value, "iter"):
            return None
        b[j].value = b[j].value.args[0]
        return self.loop(s, target, ast.Name(it.id, ast.Load()), body)

    # xs[i] for all i
    def items(self, s, xs, i, body, always=False):
        to = self.fresh()
        body = [Item(xs, i, to).visit(x) for x in body]
        it, t = ast.Name(xs, ast.Load()), ast.Name(to, ast.Store())
        if uses(body, i) or always:
            it = ast.Call(ast.Name("enumerate", ast.Load()), [it], [])
            t = ast.Tuple([ast.Name(i, ast.Store()), t], ast.Store())
        return self.loop(s, t, it, body)

    def by_range(self, s):
        a = call_of(s.iter, "range") or call_of(s.iter, "range", args=2)
        if not a or len(a) == 2 and not (isinstance(a[0], ast.Constant) and a[0].value == 0) or s.orelse:
            return None
        n = call_of(a[-1], "len")
        if not n or not is_name(n[0]) or not is_name(s.target):
            return None
        xs, i = n[0].id, s.target.id
        here = uses([s], i)
        if mutated(s.body, xs) or stores(s.body, i) or not any(
                isinstance(x, ast.Subscript) and is_name(x.value, xs) and is_name(x.slice, i)
                for y in s.body for x in ast.walk(y)):
            return None
        return self.items(s, xs, i, s.body, len(uses([self.fn], i)) != len(here))

    def by_index(self, b, k):
        s = b[k]
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq))
                and is_name(t.left)):
            return None
        i, end = t.left.id, t.comparators[0]
        if is_name(end):
            j = self.assigned(b, k, end.id)
            if j is None:
                return None
            end = b[j].value
        n = call_of(end, "len")
        if not n or not is_name(n[0]):
            return None
        xs = n[0].id
        inc = [x for x in s.body if isinstance(x, ast.AugAssign) and is_name(x.target, i) and isinstance(x.op, ast.Add)
               and isinstance(x.value, ast.Constant) and x.value.value == 1]
        start = next((j for j in range(k - 1, -1, -1) if stores([b[j]], i)), None)
        if len(inc) != 1 or start is None or len(stores(s.body, i)) != 1 or mutated(s.body, xs):
            return None
        z = b[start]
        if not (isinstance(z, ast.Assign) and len(z.targets) == 1 and isinstance(z.value, ast.Constant)
                and z.value.value == 0):
            return None
        p = s.body.index(inc[0])
        if uses(s.body[p + 1:], i) or any(True for _ in level(s.body[:p], ast.Continue)):
            return None
        if len(uses([self.fn], i)) != len(uses([s], i)) + 1:
            return None     # used elsewhere as well
        del s.body[p]
        return self.items(s, xs, i, s.body)

    # todo.pop(0)
    def by_pop(self, b, i):
        s = b[i]
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and isinstance(
                t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
            t = t.left
        n = call_of(t, "len")
        t = n[0] if n else t
        if not is_name(t) or not s.body or not isinstance(s.body[0], ast.Assign) or len(s.body[0].targets) != 1:
            return None
        q, c = t.id, s.body[0].value
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and is_name(c.func.value, q)
                and c.func.attr in ("pop", "popleft") and not c.keywords and len(c.args) <= 1):
            return None
        first = c.func.attr == "popleft" or len(c.args) == 1
        if c.args and not (c.func.attr == "pop" and isinstance(c.args[0], ast.Constant) and c.args[0].value == 0):
            return None
        j = self.assigned(b, i, q)
        if j is None or uses(s.body[1:], q) or uses(b[i + 1:], q):
            return None
        if len(uses([self.fn], q)) != len(uses([s], q)) + sum(len(uses([x], q)) for x in b[j:i]) or mutated(
                b[j + 1:i], q):
            return None
        v = b[j].value
        own = isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Call) and (
            isinstance(v.func, ast.Name) and v.func.id in ("list", "sorted", "deque")
            or isinstance(v.func, ast.Attribute) and v.func.attr in ("copy", "deque"))
        if not own:
            return None
        if isinstance(v, ast.Call) and v.args and (getattr(v.func, "id", "") == "deque" or getattr(
                v.func, "attr", "") == "deque"):
            b[j].value = ast.copy_location(ast.Call(ast.Name("list", ast.Load()), v.args[:1], []), v)
            ast.fix_missing_locations(b[j])
        it = ast.Name(q, ast.Load())
        if not first:
            it = ast.Call(ast.Name("reversed", ast.Load()), [it], [])
        return self.loop(s, s.body[0].targets[0], it, s.body[1:])

    def by_enumerate(self, s):
        a = call_of(s.iter, "enumerate") or call_of(s.iter, "enumerate", args=2)
        if not a or not isinstance(s.target, ast.Tuple) or len(s.target.elts) != 2 or not is_name(s.target.elts[0]):
            return None
        i = s.target.elts[0].id
        if len(uses([self.fn], i)) != 1:
            return None
        new = self.loop(s, s.target.elts[1], a[0], s.body)
        new.orelse = s.orelse
        return new
