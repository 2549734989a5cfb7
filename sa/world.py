"""Objects of the agent in an arbitrary (reachable or not) state."""

import ast

from .terms import T, mk, sym, call, const, is_const, cval, is_call, ext, ref, subterms, NONE, TRUE, FALSE
from .state import HObj
from .program import AnalysisError


def stored_names(eng):
    """Attribute names assigned anywhere but in a constructor."""
    r = getattr(eng, "_stored_names", None)
    if r is not None:
        return r
    r = set()
    for m in eng.mods.values():
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.Lambda)) or getattr(fn, "name", "") == "__init__":
                continue
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    r.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        r.add(n.args[1].value)
    eng._stored_names = r
    return r


def param_syms(eng, qual, skip=1, prefix="", types=None):
    """One symbol per parameter of a function (after the first `skip`)."""
    a = eng.funcs[qual].node.args
    names = [x.arg for x in list(getattr(a, "posonlyargs", [])) + list(a.args)][skip:]
    return [sym(prefix + n, (types or {}).get(n)) for n in names]


def make(eng, st, cid, args=(), kwargs=(), havoc=True, defaults=False):
    """A constructed instance; [(state, ref)].  With havoc its mutable fields are unknown; with defaults what has a default value has it."""
    cls = eng.classes[cid]
    init = eng.class_attr(cid, "__init__")
    args = list(args)
    kw = dict(kwargs)
    if init is not None and init.op == "func":
        a = eng.funcs[init.args[0]].node.args
        names = [x.arg for x in a.args][1:]
        given = dict(zip(reversed(names), reversed(eng.defaults.get(init.args[0], ((), {}))[0])))
        for n in names[len(args):]:
            if n not in kw and not (n in given and (defaults or given[n].op == "ref")):
                kw[n] = sym("%s.%s" % (cls.name, n))
    mon = eng.mon
    from .engine import Monitor

    class Quiet(Monitor):
        def raises(self, e, s, name, base, a, k):
            return []

        def pure(self, name):
            return mon.pure(name)

        def call(self, e, s, name, base, a, k, node):
            f = getattr(mon, "constructing", None)
            return f(e, s, name, base, a, k, node) if f is not None else None

    eng.mon = Quiet()
    try:
        out = eng.newout()
        rets = eng.instantiate(st, mk("class", cid), tuple(args), tuple(kw.items()), eng.NODE, out)
    finally:
        eng.mon = mon
    if not rets:
        raise AnalysisError("constructor of %s never returns" % cid)
    # the constructor may split on an argument: join by taking each
    res = []
    for s, r in rets:
        if havoc:
            s = havoc_obj(eng, s, r)
        res.append((s, r))
    # merge states that differ only in facts
    seen = {}
    for s, r in res:
        s = s.copy()
        fields = {v for v in eng.obj(s, r).items.values() if isinstance(v, T)} if eng.obj(s, r) is not None else ()
        s.facts = {t: b for t, b in s.facts.items() if t.op == "sym" and t in fields}
        s.trace = None
        seen.setdefault((s.key(), r), (s, r))
    return list(seen.values())


def havoc_obj(eng, st, r):
    o = eng.obj(st, r)
    names = stored_names(eng)
    items = {}
    for k, v in o.items.items():
        if k in names:
            continue
        items[k] = v
        if v.op == "ref":
            h = eng.obj(st, v)
            if h is not None and h.kind == "dict":
                st = st.setobj(v.args[0], h.with_(items={}, rest=True))
            elif h is not None and h.kind in ("list", "set"):
                st = st.setobj(v.args[0], h.with_(items=None, taint=frozenset()))
    return st.setobj(r.args[0], o.with_(items=items, rest=True))


def attr_name(t):
    return t.args[1] if t.op == "attr" else None


def taint_sources(t, pred):
    return [x for x in subterms(t) if pred(x)]


def method_of(eng, cid, name):
    v = eng.class_attr(cid, name)
    if v is None:
        raise AnalysisError("method %s of %s not found" % (name, cid))
    return v


def arg(eng, qual_or_names, args, kwargs, name, default=None):
    """Value bound to parameter `name`."""
    names = qual_or_names
    if isinstance(names, str):
        a = eng.funcs[names].node.args
        names = [x.arg for x in a.args]
    kw = dict(kwargs)
    if name in kw:
        return kw[name]
    if name in names:
        i = list(names).index(name)
        if i < len(args):
            return args[i]
    return default


def forget(st):
    """The state with nothing known about attributes of symbolic objects (and no facts)."""
    s = st.copy()
    s.facts = {}
    s.heap = {a: o for a, o in st.heap.items() if not (isinstance(a, tuple) and a and a[0] == "attrs")}
    s.trace = None
    return s


def young(t):
    """t with values of earlier loop iterations named like those of the current one."""
    from .facts import rename
    for a in list(t.atoms):
        if a.op == "elem" and str(a.args[1]).endswith("~"):
            t = rename(t, a, mk("elem", a.args[0], a.args[1][:-1]))
        elif a.op == "call" and str(a.args[4]).endswith("~"):
            t = rename(t, a, mk("call", *(a.args[:4] + (a.args[4][:-1],))))
    return t


def is_log(name, base):
    """A call of a logging method of a logger."""
    from .models import LOG_METHODS
    if name.startswith(".") and name[1:] in LOG_METHODS and base is not None:
        b = base
        return is_call(b, "logging.getLogger") or (b.op == "attr" and b.args[1] in ("log", "logger", "_log")) \
            or b.op == "ext" and b.args[0] == "logging"
    return name.startswith("logging.") and name.split(".")[1] in LOG_METHODS


def is_pure(name):
    """A call without effect."""
    from .models import PURE, PURE_METHODS
    return name in PURE or (name.startswith(".") and name[1:] in PURE_METHODS)


def const_of(t):
    """Python constant behind a constant or enum term (or None)."""
    if t is None:
        return None
    if is_const(t):
        return cval(t)
    if t.op == "enum" and is_const(t.args[2]):
        return cval(t.args[2])
    return None
