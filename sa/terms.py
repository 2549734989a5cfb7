"""Hash-consed abstract values (value-numbering domain)."""

_table = {}


class T(object):
    """An abstract value.  Interned: equality is identity."""

    __slots__ = ("op", "args", "atoms", "size", "_s", "__weakref__")

    def __repr__(self):
        return show(self)


def _atoms_of(op, args):
    acc = set()
    size = 1
    for a in args:
        if isinstance(a, T):
            acc |= a.atoms
            size += a.size
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    acc |= b.atoms
                    size += b.size
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, T):
                            acc |= c.atoms
                            size += c.size
    return acc, size


MAX_SIZE = 400


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        acc, size = _atoms_of(op, args)
        if size > MAX_SIZE and op != "big":
            return mk("big", tuple(sorted(acc, key=id)))
        t = T()
        t.op = op
        t.args = args
        t.size = size
        t._s = None
        if op in ("sym", "phi", "elem", "ref", "exc") or (op == "call" and args[4] is not None):
            acc = acc | {t}
        t.atoms = frozenset(acc)
        _table[key] = t
    return t


def const(v):
    return mk("const", (type(v).__name__, v))


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0][1]


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def sym(name, typ=None):
    return mk("sym", name, typ)


def ref(addr):
    return mk("ref", addr)


def call(name, base=None, args=(), kwargs=(), uid=None):
    return mk("call", name, base, tuple(args), tuple(kwargs), uid)


def cname(t):
    return t.args[0] if t.op == "call" else None


def is_call(t, *names):
    return t.op == "call" and t.args[0] in names


def cbase(t):
    return t.args[1]


def cargs(t):
    return t.args[2]


def ckwargs(t):
    return dict(t.args[3])


def ext(name):
    return mk("ext", name)


def subterms(t):
    """All subterms, each once."""
    seen = set()
    out = []
    work = [t]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        out.append(x)
        work.extend(x.args)
    return out


def mentions(t, atom):
    return atom in t.atoms


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if t._s is not None:
        return t._s
    if depth > 12:
        return "..."
    op, a = t.op, t.args
    if op == "const":
        s = repr(a[0][1])
    elif op == "sym":
        s = "$" + str(a[0])
    elif op == "ref":
        s = "&" + str(a[0])
    elif op in ("ext", "mod"):
        s = str(a[0])
    elif op == "class":
        s = str(a[0]).split(":")[-1]
    elif op == "func":
        s = str(a[0]).split("@")[0]
    elif op == "bound":
        s = "%s.%s" % (show(a[1], depth + 1), show(a[0], depth + 1).split(".")[-1])
    elif op == "attr":
        s = "%s.%s" % (show(a[0], depth + 1), a[1])
    elif op == "call":
        args = [show(x, depth + 1) for x in a[2]] + ["%s=%s" % (k, show(v, depth + 1)) for k, v in a[3]]
        s = "%s%s(%s)" % (show(a[1], depth + 1) if a[1] is not None else "", a[0], ", ".join(args))
    elif op == "item":
        s = "%s[%s]" % (show(a[0], depth + 1), show(a[1], depth + 1))
    elif op == "fmt":
        s = "fmt<" + "|".join(show(x, depth + 1) if isinstance(x, T) else repr(x) for x in a[0]) + ">"
    elif op in ("cmp", "bin"):
        s = "(%s %s %s)" % (show(a[1], depth + 1), a[0], show(a[2], depth + 1))
    elif op == "tuple":
        s = "(" + ", ".join(show(x, depth + 1) for x in a[0]) + ")"
    elif op == "elem":
        s = "each(%s)" % show(a[0], depth + 1)
    elif op == "phi":
        s = "var:%s" % (a[1],)
    elif op == "enum":
        s = a[1]
    else:
        s = "%s(%s)" % (op, ", ".join(show(x, depth + 1) for x in a))
    if len(s) > 300:
        s = s[:300] + "..."
    t._s = s
    return s
