"""Terms: the abstract values of the interpreter (immutable nested tuples)."""

NONE = ("c", "NoneType", None)
TRUE = ("c", "bool", True)
FALSE = ("c", "bool", False)


def C(v):
    return ("c", type(v).__name__, v)


def is_c(t):
    return t[0] == "c"


def cval(t, default=None):
    return t[2] if t[0] == "c" else default


def is_str(t):
    return t[0] == "c" and isinstance(t[2], str)


def strcat(parts):
    out = []
    for p in parts:
        if p[0] == "str":
            sub = p[1]
        else:
            sub = (p,)
        for q in sub:
            if is_c(q) and not isinstance(q[2], (bytes, str)):
                q = C(str(q[2]))
            if (out and is_c(out[-1]) and is_c(q)
                    and isinstance(out[-1][2], str) and isinstance(q[2], str)):
                out[-1] = C(out[-1][2] + q[2])
            elif (out and is_c(out[-1]) and is_c(q)
                    and isinstance(out[-1][2], bytes) and isinstance(q[2], bytes)):
                out[-1] = C(out[-1][2] + q[2])
            else:
                out.append(q)
    out = [q for q in out if not (is_c(q) and q[2] in ("", b""))] or [C("")]
    if len(out) == 1 and is_c(out[0]):
        return out[0]
    if len(out) == 1:
        return out[0]
    return ("str", tuple(out))


def join(base, *parts):
    for p in parts:
        if p[0] == "join":
            # joining a relative multi-part path: keep the structure flat
            base = join(join(base, p[1]), p[2])
        elif is_str(p) and "/" in p[2].strip("/") and not p[2].startswith("/"):
            for q in p[2].split("/"):
                if q:
                    base = ("join", base, C(q))
        else:
            base = ("join", base, p)
    return base


def _strip_ext(last):
    if is_str(last):
        s = last[2]
        i = s.rfind(".")
        return C(s[:i]) if i > 0 else last
    if last[0] == "str":
        tail = last[1][-1]
        if is_str(tail) and "." in tail[2]:
            s = tail[2]
            i = s.rfind(".")
            return strcat(last[1][:-1] + ((C(s[:i]),) if i else ()))
    return last


def with_suffix(p, s):
    last = p[2] if p[0] == "join" else p
    tail = None
    sp = s[1] if s[0] == "str" else (s,)
    if sp and sp[0][0] == "attr" and sp[0][2] == "suffix" and sp[0][1] in (p, last):
        tail = strcat((last,) + tuple(sp[1:]))
    elif sp and sp[0][0] == "app" and sp[0][1] == "suffix" and sp[0][2] and sp[0][2][0] in (p, last):
        tail = strcat((last,) + tuple(sp[1:]))
    else:
        tail = strcat((_strip_ext(last), s))
    if p[0] == "join":
        return ("join", p[1], tail)
    return tail


def basename(p):
    return p[2] if p[0] == "join" else p


def dirname(p):
    if p[0] == "join":
        return p[1]
    if p[0] == "tmp":
        return p[2]
    if p[0] == "app" and p[1] in ("str", "parent"):
        pass
    return ("app", "dirname", (p,), (), 0)


def endswith(t, suffix):
    """Does the string/path term certainly end with the constant suffix?"""
    b = basename(t)
    if is_str(b):
        return b[2].endswith(suffix)
    if b[0] == "str":
        tail = b[1][-1]
        return is_str(tail) and tail[2].endswith(suffix)
    return False


def startswith(t, prefix):
    if is_str(t):
        return t[2].startswith(prefix)
    if t[0] == "str":
        h = t[1][0]
        return is_str(h) and h[2].startswith(prefix)
    return False


def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(y for y in x if isinstance(y, tuple))
        elif isinstance(x, frozenset):
            stack.extend(x)


_mentions_cache = {}


def mentions(t, sub):
    k = (t, sub)
    r = _mentions_cache.get(k)
    if r is None:
        r = any(x == sub for x in subterms(t))
        if len(_mentions_cache) > 400000:
            _mentions_cache.clear()
        _mentions_cache[k] = r
    return r


def replace(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(replace(x, old, new) if isinstance(x, (tuple, frozenset))
                     else x for x in t)
    if isinstance(t, frozenset):
        return frozenset(replace(x, old, new) for x in t)
    return t


def show(t, depth=0):
    """Readable rendering of a term for reports."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth > 8:
        return "…"
    k = t[0]
    d = depth + 1
    if k == "c":
        return repr(t[2])
    if k == "sym":
        return t[1]
    if k == "attr":
        return f"{show(t[1], d)}.{t[2]}"
    if k == "obj":
        return f"<{t[2].split('.')[-1]}#{t[1]}>"
    if k == "enum":
        return f"{t[1].split('.')[-1]}.{t[2]}"
    if k == "app":
        return f"{t[1]}({', '.join(show(a, d) for a in t[2])})"
    if k == "idx":
        return f"{show(t[1], d)}[{show(t[2], d)}]"
    if k == "slice":
        return f"{show(t[1], d)}[{show(t[2], d)}:{show(t[3], d)}]"
    if k == "bin":
        return f"({show(t[2], d)} {t[1]} {show(t[3], d)})"
    if k == "cmp":
        return f"({show(t[2], d)} {t[1]} {show(t[3], d)})"
    if k == "not":
        return f"not {show(t[1], d)}"
    if k == "elem":
        return f"each({show(t[1], d)})"
    if k == "join":
        return f"{show(t[1], d)}/{show(t[2], d)}"
    if k == "str":
        return "+".join(show(a, d) for a in t[1])
    if k == "tuple":
        return "(" + ", ".join(show(a, d) for a in t[1]) + ")"
    if k == "comp":
        return "[… for " + show(t[3], d) + " …]"
    if k == "conv":
        return f"{t[1]}({show(t[2], d)})"
    if k in ("ext", "class", "mod"):
        return str(t[1])
    if k == "func":
        return f"<func {t[1]}>"
    if k == "tmp":
        return f"tmpfile in {show(t[2], d)}"
    if k == "exc":
        return f"{t[1]}"
    if k == "loop":
        return f"<{t[2] if isinstance(t[2], str) else 'loopvar'}>"
    return f"<{k}>"
