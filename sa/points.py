"""Which objects and functions every expression may denote, in the whole program (flow-insensitive, by allocation site; objects
of the program's classes by class), and the calls that follow from it."""

import ast

from .program import load_modules, AnalysisError, digest

LOCKS = {"threading.Lock": False, "threading.RLock": True, "_thread.allocate_lock": False, "threading._RLock": True,
         "threading.Semaphore": False, "threading.BoundedSemaphore": False, "threading.Condition": True,
         "multiprocessing.Lock": False, "multiprocessing.RLock": True, "thread.allocate_lock": False}
CONTAINERS = {"list", "dict", "set", "tuple", "frozenset", "sorted", "reversed", "enumerate", "zip", "iter", "map", "filter",
              "collections.deque", "collections.defaultdict", "collections.OrderedDict", "queue.Queue", "Queue.Queue", "deque"}
NOW = {"map", "filter", "iter", "sorted", "min", "max", "any", "all", "sum", "next", "list", "tuple", "reduce", "functools.reduce"}
PUT = {"append", "appendleft", "add", "insert", "extend", "put", "put_nowait", "setdefault", "update"}
GET = {"pop", "popleft", "get", "get_nowait", "popitem", "values", "items", "keys", "copy", "itervalues", "iteritems", "setdefault",
       "__getitem__", "__iter__", "next", "__next__"}
WRITES = PUT | {"pop", "popleft", "popitem", "clear", "remove", "discard", "reverse", "sort", "__setitem__", "__delitem__"}


class Fn(object):
    def __init__(self, qual, node, module, cls, outer):
        self.qual, self.node, self.module, self.cls, self.outer = qual, node, module, cls, outer
        self.params = []
        self.locals = set()
        self.isgen = False
        self.decos = []
        self.globals = set()

    @property
    def body(self):
        return self.node.body if isinstance(self.node.body, list) else [ast.Expr(self.node.body)]

    def loc(self, n=None):
        return "%s:%d" % (self.module.rel, (n or self.node).lineno)


class Points(object):

    def __init__(self):
        self.mods = load_modules()
        self.digest = digest(self.mods)
        self.fns = {}
        self.classes = {}
        self.pts = {}
        self.calls = {}          # (fn qual, id(node)) -> set of quals
        self.nodes = {}          # id(node) -> node, kept alive
        self.threads = {}        # start site (fn qual, id(node)) -> set of quals
        self.escaped = set()
        self.joins = {}          # call -> the threads waited for
        self.decorated = {}
        self.wrapped = {}        # function qual -> what its name stands for, where decorated
        self.at = {}             # id(node) -> qual, of lambdas and nested functions
        for m in self.mods.values():
            top = Fn(m.name + ":", m.tree, m, None, None)
            self.fns[top.qual] = top
            self.scan(m.tree.body, m, None, top, "")
        self.solve()

    # ------------------------------------------------------------- collecting
    def scan(self, body, m, cls, outer, prefix):
        for n in self.walk(body):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                name = getattr(n, "name", "<lambda %d>" % n.lineno)
                qual = m.name + ":" + prefix + name
                while qual in self.fns:
                    qual += "'"
                f = Fn(qual, n, m, cls, outer)
                a = n.args
                f.params = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
                f.locals = set(f.params) | {x.arg for x in a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
                f.decos = getattr(n, "decorator_list", [])
                inner = n.body if isinstance(n.body, list) else [ast.Expr(n.body)]
                for x in self.walk(inner):
                    if isinstance(x, (ast.Yield, ast.YieldFrom)):
                        f.isgen = True
                    if isinstance(x, ast.Global):
                        f.globals |= set(x.names)
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        f.locals.add(x.id)
                    if isinstance(x, ast.ExceptHandler) and x.name:
                        f.locals.add(x.name)
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        f.locals.add(x.name)
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        f.locals |= {(al.asname or al.name).split(".")[0] for al in x.names}
                    if isinstance(x, (ast.Nonlocal,)):
                        f.globals |= set(x.names)
                f.locals -= f.globals
                self.fns[qual] = f
                self.at[id(n)] = qual
                self.nodes[id(n)] = n
                self.scan(inner, m, None, f, prefix + name + ".")
            elif isinstance(n, ast.ClassDef):
                cid = m.name + ":" + prefix + n.name
                self.classes[cid] = {"node": n, "module": m, "methods": {}, "bases": [], "outer": outer, "cid": cid}
                self.at[id(n)] = cid
                self.nodes[id(n)] = n
                top = Fn(cid, n, m, None, outer)
                top.locals = set()
                self.fns[cid] = top
                before = set(self.fns)
                self.scan(n.body, m, cid, outer, prefix + n.name + ".")
                for x in n.body:
                    for y in ([x] if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) else ast.walk(x) if isinstance(
                            x, (ast.If, ast.Try)) else []):
                        if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef)) and id(y) in self.at:
                            self.classes[cid]["methods"].setdefault(y.name, []).append(self.at[id(y)])

    @staticmethod
    def walk(body):
        """Nodes of this scope: nested functions and classes are yielded, not entered."""
        work = list(body)[::-1]
        while work:
            n = work.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                work.extend(n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d])
            elif isinstance(n, ast.Lambda):
                work.extend(n.args.defaults)
            elif isinstance(n, ast.ClassDef):
                work.extend(n.decorator_list + n.bases)
            else:
                work.extend(list(ast.iter_child_nodes(n))[::-1])

    # ---------------------------------------------------------------- solving
    def add(self, node, vals):
        s = self.pts.setdefault(node, set())
        n = len(s)
        s |= vals
        if len(s) != n:
            self.changed = True

    def get(self, node):
        return self.pts.get(node, frozenset())

    def solve(self):
        for cid, c in self.classes.items():
            for name, quals in c["methods"].items():
                for q in quals:
                    f = self.fns[q]
                    if f.params and not self.static(f):
                        self.add(("v", q, f.params[0]), {("inst", cid)} if not self.is_classmethod(f) else {("class", cid)})
        for rounds in range(60):
            self.changed = False
            for f in list(self.fns.values()):
                if isinstance(f.node, ast.ClassDef):
                    self.classbody(f)
                else:
                    for st in f.body:
                        self.stmt(st, f)
            if not self.changed:
                return
        raise AnalysisError("the points-to analysis does not converge")

    @staticmethod
    def deconames(f):
        r = set()
        for d in f.decos:
            d = d.func if isinstance(d, ast.Call) else d
            r.add(d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "?"))
        return r

    def static(self, f):
        return "staticmethod" in self.deconames(f)

    def is_classmethod(self, f):
        return "classmethod" in self.deconames(f)

    def classbody(self, f):
        c = self.classes[f.qual]
        for b in f.node.bases:
            for v in self.ev(b, c["outer"] or f):
                if v not in c["bases"]:
                    c["bases"].append(v)
                    self.changed = True
        for st in f.node.body:
            if isinstance(st, ast.Assign):
                vals = self.ev(st.value, f)
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.add(("attr", f.qual, t.id), vals)
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.add(("attr", f.qual, st.target.id), self.ev(st.value, f))
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.decorations(st, f)
                self.add(("cls", f.qual, st.name), {("func", q) for q in self.named(self.at[id(st)])})

    def decorations(self, node, f):
        q = self.at[id(node)]
        cur = {("func", q)}
        for d in reversed(node.decorator_list):
            name = d.func if isinstance(d, ast.Call) else d
            name = name.attr if isinstance(name, ast.Attribute) else getattr(name, "id", "?")
            if name in ("property", "classmethod", "staticmethod", "contextmanager", "setter", "wraps", "abstractmethod"):
                continue
            self.decorated.setdefault(name, set()).add(q)
            got = set()
            for v in self.ev(d, f):
                got |= {x for x in self.invoke(v, [cur], {}, f, d) if x[0] == "func"}
                if v[0] in ("func", "bound"):           # a decorator that gives back what it is given
                    for n in self.fns[v[1]].params:
                        got -= self.get(("v", v[1], n))
            cur = got or cur
        if cur != {("func", q)} and cur != self.wrapped.get(q):
            self.wrapped[q] = cur
            self.changed = True

    def named(self, q):
        """What calling the function by its name runs: it, or what its decorators made of it."""
        return {v[1] for v in self.wrapped.get(q, ())} or {q}

    def stmt(self, st, f):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.decorations(st, f)
            for d in st.args.defaults + [x for x in st.args.kw_defaults if x]:
                self.ev(d, f)
            self.bind_defaults(st, f)
            self.store(ast.Name(st.name, ast.Store()), {("func", q) for q in self.named(self.at[id(st)])}, f)
        elif isinstance(st, ast.ClassDef):
            self.store(ast.Name(st.name, ast.Store()), {("class", self.at[id(st)])}, f)
        elif isinstance(st, ast.Assign):
            v = self.ev(st.value, f)
            for t in st.targets:
                self.store(t, v, f, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.store(st.target, self.ev(st.value, f), f)
        elif isinstance(st, ast.AugAssign):
            self.store(st.target, self.ev(st.value, f) | self.ev(self.load(st.target), f), f)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter, f)
            self.store(st.target, self.content(it, f, st.iter), f)
            self.block(st.body + st.orelse, f)
        elif isinstance(st, ast.While):
            self.ev(st.test, f)
            self.block(st.body + st.orelse, f)
        elif isinstance(st, ast.If):
            self.ev(st.test, f)
            self.block(st.body + st.orelse, f)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(i.context_expr, f)
                r = set()
                for x in v:
                    if x[0] == "cm":
                        r |= self.get(("yield", x[1]))
                    elif x[0] == "inst":
                        for m in ("__enter__", "__exit__"):
                            for q in self.method(x[1], m):
                                r |= self.call(q, [{x}], {}, f, i.context_expr) if m == "__enter__" else set()
                                if m == "__exit__":
                                    self.call(q, [{x}], {}, f, i.context_expr)
                    else:
                        r.add(x)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, r, f)
            self.block(st.body, f)
        elif isinstance(st, ast.Try) or type(st).__name__ == "TryStar":
            self.block(st.body + st.orelse + st.finalbody, f)
            for h in st.handlers:
                if h.type is not None:
                    self.ev(h.type, f)
                self.block(h.body, f)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                self.add(("ret", f.qual), self.ev(st.value, f))
        elif isinstance(st, ast.Expr):
            v = self.ev(st.value, f)
            if isinstance(f.node, ast.Lambda):
                self.add(("ret", f.qual), v)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            self.imports(st, f)
        elif isinstance(st, (ast.Raise, ast.Assert, ast.Delete)):
            for x in ast.iter_child_nodes(st):
                if isinstance(x, ast.expr):
                    self.ev(x, f)

    def block(self, body, f):
        for st in body:
            self.stmt(st, f)

    def bind_defaults(self, st, f):
        q = self.at[id(st)]
        a = st.args
        names = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            self.add(("v", q, n), self.ev(d, f))
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.add(("v", q, n.arg), self.ev(d, f))

    @staticmethod
    def load(t):
        if isinstance(t, ast.Name):
            return ast.Name(t.id, ast.Load())
        return t

    def imports(self, st, f):
        m = f.module
        if isinstance(st, ast.Import):
            for al in st.names:
                top = al.name.split(".")[0]
                target = al.name if al.asname else top
                v = ("mod", target) if target in self.mods else ("ext", target)
                self.store(ast.Name(al.asname or top, ast.Store()), {v}, f)
            return
        base = st.module or ""
        if st.level:
            pkg = m.name if m.path.endswith("__init__.py") else m.name.rpartition(".")[0]
            for _ in range(st.level - 1):
                pkg = pkg.rpartition(".")[0]
            base = pkg + ("." + base if base else "")
        for al in st.names:
            full = base + "." + al.name
            if full in self.mods:
                v = {("mod", full)}
            elif base in self.mods:
                v = set(self.get(("g", base, al.name)))
            else:
                v = {("ext", full)}
            self.store(ast.Name(al.asname or al.name, ast.Store()), v, f)

    # ------------------------------------------------------------ expressions
    def var(self, name, f):
        g = f
        if isinstance(f.node, ast.ClassDef):
            for k in ("cls", "attr"):
                if (k, f.qual, name) in self.pts:
                    return (k, f.qual, name)
        while g is not None:
            if g.qual.endswith(":"):
                return ("g", g.module.name, name)
            if name in g.locals and not isinstance(g.node, ast.ClassDef):
                return ("v", g.qual, name)
            g = g.outer
        return ("g", f.module.name, name)

    def store(self, t, vals, f, value=None):
        if isinstance(t, ast.Name):
            self.add(self.var(t.id, f), vals)
        elif isinstance(t, ast.Attribute):
            for b in self.ev(t.value, f):
                if b[0] in ("inst", "class"):
                    self.add(("attr", b[1], t.attr), vals)
                elif b[0] == "thread":
                    self.add(("field", b, t.attr), vals)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for x, y in zip(t.elts, value.elts):
                    self.store(x, self.ev(y, f), f)
            else:
                c = self.content(vals, f, t)
                for x in t.elts:
                    self.store(x.value if isinstance(x, ast.Starred) else x, c | vals, f)
        elif isinstance(t, ast.Subscript):
            for b in self.ev(t.value, f):
                if b[0] == "cont":
                    self.add(("elem", b), vals)
                elif b[0] == "inst":
                    for q in self.method(b[1], "__setitem__"):
                        self.call(q, [{b}, set(), vals], {}, f, t)
        elif isinstance(t, ast.Starred):
            self.store(t.value, vals, f)

    def content(self, vals, f, node):
        r = set()
        for v in vals:
            if v[0] == "cont":
                r |= self.get(("elem", v))
            elif v[0] == "inst":
                for q in self.method(v[1], "__iter__"):
                    self.call(q, [{v}], {}, f, node)
                    r |= self.get(("yield", q)) | self.content(self.get(("ret", q)), f, node)
                for m in ("__next__", "next"):
                    for q in self.method(v[1], m):
                        r |= self.call(q, [{v}], {}, f, node)
            elif v[0] == "gen":
                r |= self.get(("yield", v[1]))
        return r

    def site(self, f, node, kind):
        self.nodes[id(node)] = node
        return (kind, "%s %d:%d" % (f.module.rel, node.lineno, node.col_offset))

    def ev(self, e, f):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e, f)
        r = set()
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, f)
        return r

    def e_Name(self, e, f):
        v = self.var(e.id, f)
        r = self.get(v)
        if not r and v[0] == "g" and v not in self.pts:
            return {("ext", e.id)}
        return set(r)

    def e_Constant(self, e, f):
        return set()

    def e_Lambda(self, e, f):
        a = e.args
        names = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
        q = self.at[id(e)]
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            self.add(("v", q, n), self.ev(d, f))
        return {("func", q)}

    def e_Attribute(self, e, f):
        r = set()
        for b in self.ev(e.value, f):
            r |= self.attribute(b, e.attr, f, e)
        return r

    def attribute(self, b, name, f, e):
        r = set()
        if b[0] in ("inst", "class"):
            r |= self.get(("attr", b[1], name))
            found = False
            for q0 in self.method(b[1], name):
                found = True
                fn = self.fns[q0]
                d = self.deconames(fn)
                for q in self.named(q0):
                    if "property" in d and b[0] == "inst":
                        r |= self.call(q, [{b}], {}, f, e)
                    elif "staticmethod" in d or b[0] == "class" and "classmethod" not in d:
                        r.add(("func", q))
                    else:
                        r.add(("bound", q, b))
            for k in self.mro(b[1])[1:]:
                r |= self.get(("attr", k, name))
            if not found and not r:
                for x in self.extbases(b[1]):
                    r.add(("extm", x + "." + name, b))
        elif b[0] == "mod":
            r |= self.get(("g", b[1], name))
            if b[1] + "." + name in self.mods:
                r.add(("mod", b[1] + "." + name))
        elif b[0] == "ext":
            r.add(("ext", b[1] + "." + name if b[1].count(".") < 4 else b[1]))
        elif b[0] in ("cont", "lock", "thread", "extinst", "weak", "cm", "gen", "partial", "event"):
            r |= self.get(("field", b, name))
            r.add(("of", b, name))
        elif b[0] == "super":
            for k in self.mro(b[1])[1:]:
                qs = self.classes[k]["methods"].get(name, ()) if k in self.classes else ()
                if qs:
                    r |= {("bound", q, b[2]) for q in qs}
                    break
            else:
                for x in self.extbases(b[1]):
                    r.add(("extm", x + "." + name, b[2]))
        return r

    def mro(self, cid):
        r = [cid]
        for k in r:
            if k in self.classes:
                for b in self.classes[k]["bases"]:
                    if b[0] == "class" and b[1] not in r:
                        r.append(b[1])
        return r

    def extbases(self, cid):
        return [b[1] for k in self.mro(cid) if k in self.classes for b in self.classes[k]["bases"] if b[0] == "ext"]

    def used(self, name):
        """Is there any mention of an attribute or variable of this name?"""
        if not hasattr(self, "mentions"):
            self.mentions = {x.attr if isinstance(x, ast.Attribute) else x.id for m in self.mods.values() for x in ast.walk(m.tree)
                             if isinstance(x, (ast.Attribute, ast.Name))}
            self.mentions |= {x.value for m in self.mods.values() for x in ast.walk(m.tree) if isinstance(x, ast.Constant)
                              and isinstance(x.value, str)}
        return name in self.mentions

    def method(self, cid, name):
        for k in self.mro(cid):
            qs = self.classes[k]["methods"].get(name) if k in self.classes else None
            if qs:
                return qs
        return ()

    def is_thread(self, cid):
        return "threading.Thread" in self.extbases(cid) or "threading.Timer" in self.extbases(cid)

    def e_Subscript(self, e, f):
        base = self.ev(e.value, f)
        self.ev(e.slice, f)
        r = set()
        for b in base:
            if b[0] == "cont":
                r |= self.get(("elem", b))
                if isinstance(e.slice, ast.Slice):
                    r.add(b)
            elif b[0] == "inst":
                for q in self.method(b[1], "__getitem__"):
                    r |= self.call(q, [{b}], {}, f, e)
        return r

    def e_container(self, e, f):
        c = self.site(f, e, "cont")
        vals = [x for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)]
        for x in vals:
            v = self.ev(x.value if isinstance(x, ast.Starred) else x, f)
            self.add(("elem", c), self.content(v, f, x) if isinstance(x, ast.Starred) else v)
        return {c}

    e_List = e_Tuple = e_Set = e_Dict = e_container

    def e_comp(self, e, f):
        for g in e.generators:
            v = self.content(self.ev(g.iter, f), f, g.iter)
            self.store(g.target, v, f)
            for x in g.ifs:
                self.ev(x, f)
        c = self.site(f, e, "cont")
        for x in ([e.elt] if hasattr(e, "elt") else [e.key, e.value]):
            self.add(("elem", c), self.ev(x, f))
        return {c}

    e_ListComp = e_SetComp = e_DictComp = e_GeneratorExp = e_comp

    def e_IfExp(self, e, f):
        self.ev(e.test, f)
        return self.ev(e.body, f) | self.ev(e.orelse, f)

    def e_BoolOp(self, e, f):
        r = set()
        for x in e.values:
            r |= self.ev(x, f)
        return r

    def e_BinOp(self, e, f):
        return {v for v in self.ev(e.left, f) | self.ev(e.right, f) if v[0] == "cont"}

    def e_Await(self, e, f):
        return self.ev(e.value, f)

    def e_NamedExpr(self, e, f):
        v = self.ev(e.value, f)
        self.store(e.target, v, f)
        return v

    def e_Yield(self, e, f):
        if e.value is not None:
            self.add(("yield", f.qual), self.ev(e.value, f))
        return set()

    def e_YieldFrom(self, e, f):
        self.add(("yield", f.qual), self.content(self.ev(e.value, f), f, e))
        return set()

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, f):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(("*", self.content(self.ev(a.value, f), f, a)))
            else:
                args.append(self.ev(a, f))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, f)
            if k.arg is None:
                kw.setdefault("**", set()).update(self.content(v, f, e))
            else:
                kw[k.arg] = v
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            g = f
            while g is not None and g.cls is None:
                g = g.outer
            if g is not None:
                me = self.get(("v", g.qual, g.params[0])) if g.params else ()
                return {("super", g.cls, v) for v in me}
        self.nodes[id(e)] = e
        r = set()
        for v in self.ev(e.func, f):
            r |= self.invoke(v, args, kw, f, e)
        return r

    def invoke(self, v, args, kw, f, e):
        k = v[0]
        if k == "func":
            return self.call(v[1], args, kw, f, e)
        if k == "bound":
            return self.call(v[1], [{v[2]}] + list(args), kw, f, e)
        if k == "class":
            i = ("inst", v[1])
            for q in self.method(v[1], "__init__"):
                self.call(q, [{i}] + list(args), kw, f, e)
            return {i}
        if k == "inst":
            r = set()
            for q in self.method(v[1], "__call__"):
                r |= self.call(q, [{v}] + list(args), kw, f, e)
            return r
        if k == "partial":
            r = set()
            n = self.get(("n", v))
            for c in self.get(("field", v, "@f")):
                count = next(iter(n), 0)
                pos = [self.get(("field", v, "@%d" % i)) for i in range(count)]
                k2 = dict(kw)
                for name in self.get(("names", v)):
                    k2.setdefault(name, self.get(("field", v, "=" + name)))
                r |= self.invoke(c, [set(p) for p in pos] + list(args), k2, f, e)
            return r
        if k == "weak":
            return set(self.get(("elem", v)))
        if k == "ext":
            return self.external(v[1], args, kw, f, e)
        if k == "extm":
            return self.extmethod(v[1], v[2], args, kw, f, e)
        if k == "of":
            return self.of(v[1], v[2], args, kw, f, e)
        return set()

    def flat(self, args, kw):
        r = set()
        for a in args:
            r |= a[1] if isinstance(a, tuple) else a
        for a in kw.values():
            r |= a
        return r

    def external(self, name, args, kw, f, e):
        if name in LOCKS:
            s = self.site(f, e, "lock")
            return {s + (LOCKS[name],)}
        if name in ("threading.Event", "multiprocessing.Event"):
            return {self.site(f, e, "event")}
        if name in ("threading.Thread", "threading.Timer"):
            t = self.site(f, e, "thread")
            self.target(t, name, args, kw)
            return {t}
        if name in ("functools.partial", "partial"):
            p = self.site(f, e, "partial")
            if args:
                self.add(("field", p, "@f"), args[0] if not isinstance(args[0], tuple) else args[0][1])
                self.add(("n", p), {len(args) - 1})
                for i, a in enumerate(args[1:]):
                    self.add(("field", p, "@%d" % i), a if not isinstance(a, tuple) else a[1])
                self.add(("names", p), set(kw))
                for n, a in kw.items():
                    self.add(("field", p, "=" + n), a)
            return {p}
        if name in ("weakref.ref", "weakref.proxy", "weakref.WeakMethod"):
            w = self.site(f, e, "weak")
            self.add(("elem", w), self.flat(args[:1], {}))
            return {w} if name.endswith("ref") or name.endswith("Method") else self.flat(args[:1], {})
        if name in ("contextlib.closing",):
            return self.flat(args, kw)
        if name == "getattr":
            r = set()
            if len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                for b in self.flat(args[:1], {}):
                    r |= self.attribute(b, e.args[1].value, f, e)
            else:
                for b in self.flat(args[:1], {}):
                    if b[0] != "inst":
                        continue
                    names = {n: q for k in self.mro(b[1]) if k in self.classes for n, q in self.classes[k]["methods"].items()}
                    some = {n for n, qs in names.items() if any(q in s for q in qs for s in self.decorated.values())}
                    for n in some or names:
                        r |= self.attribute(b, n, f, e)
            return r
        r = set()
        fs = {v for v in self.flat(args, kw) if v[0] in ("func", "bound", "partial")}
        if name.split(".")[-1] in NOW:
            inner = set()
            for a in args:
                inner |= self.content(a[1] if isinstance(a, tuple) else a, f, e)
            for v in fs:
                r |= self.invoke(v, [inner], {}, f, e)
        elif name.startswith(("logging.", "isinstance", "callable", "functools.wraps", "id", "repr", "str")):
            pass
        else:
            self.escaped |= fs
        if name in CONTAINERS:
            c = self.site(f, e, "cont")
            for a in args:
                a = a[1] if isinstance(a, tuple) else a
                self.add(("elem", c), self.content(a, f, e))
            if name == "collections.defaultdict":
                for v in self.flat(args[:1], {}):
                    if v == ("ext", "list") or v[0] == "ext":
                        d = ("cont", c[1] + " item")
                        self.add(("elem", c), {d})
                    else:
                        self.add(("elem", c), self.invoke(v, [], {}, f, e))
            self.add(("elem", c), r)
            return {c}
        if name == "next":
            for a in args[:1]:
                r |= self.content(a if not isinstance(a, tuple) else a[1], f, e)
            return r
        return r | {("extinst", name if name.count(".") < 3 else "?")}

    def extmethod(self, name, me, args, kw, f, e):
        """A method inherited from a class outside the program."""
        if name in ("threading.Thread.start", "threading.Timer.start"):
            self.threads.setdefault((f.qual, id(e)), set()).update(self.method(me[1], "run"))
            for q in self.method(me[1], "run"):
                self.bind(q, [{me}], {})
            if not self.method(me[1], "run"):
                self.launch(("inst", me[1]), f, e)
        elif name in ("threading.Thread.__init__", "threading.Timer.__init__"):
            self.target(("inst", me[1]), name, args, kw)
        elif name in ("threading.Thread.run", "threading.Timer.run"):
            self.launch(("inst", me[1]), f, e, self.calls)
        elif name == "threading.Thread.join":
            self.joins.setdefault((f.qual, id(e)), set()).add(me)
        elif name.split(".")[-1] != "__init__":
            self.escaped |= {v for v in self.flat(args, kw) if v[0] in ("func", "bound", "partial")}
        return set()

    def of(self, b, name, args, kw, f, e):
        if b[0] == "thread" and name == "start":
            self.launch(b, f, e)
            return set()
        if b[0] == "thread" and name == "run":
            self.launch(b, f, e, self.calls)
            return set()
        if b[0] == "thread" and name == "join":
            self.joins.setdefault((f.qual, id(e)), set()).add(b)
            return set()
        if b[0] == "cont":
            if name in PUT:
                for i, a in enumerate(args):
                    a = a[1] if isinstance(a, tuple) else a
                    self.add(("elem", b), self.content(a, f, e) | (set() if name in ("extend",) else a))
                for a in kw.values():
                    self.add(("elem", b), a)
            if name in GET:
                r = set(self.get(("elem", b)))
                for a in args[1:]:
                    r |= a if not isinstance(a, tuple) else a[1]
                return r | ({b} if name in ("values", "items", "keys", "copy", "itervalues", "iteritems") else set())
            return set()
        if b[0] == "extinst":
            self.escaped |= {v for v in self.flat(args, kw) if v[0] in ("func", "bound", "partial")}
            return {("extinst", "?")}
        return set()

    def target(self, t, name, args, kw):
        timer = "Timer" in name
        tgt = kw.get("function" if timer else "target", args[1] if len(args) > 1 else set())
        self.add(("field", t, "@f"), tgt if not isinstance(tgt, tuple) else tgt[1])
        i = 2 if timer else 3
        a = kw.get("args", args[i] if len(args) > i else set())
        self.add(("field", t, "@a"), a if not isinstance(a, tuple) else a[1])
        self.add(("field", t, "@k"), kw.get("kwargs", set()))

    def launch(self, t, f, e, into=None):
        """Run the target of a thread (in a new thread, or by a call)."""
        into = self.threads if into is None else into
        a = self.content(self.get(("field", t, "@a")), f, e)
        k = self.content(self.get(("field", t, "@k")), f, e)
        for c in set(self.get(("field", t, "@f"))):
            self.start(c, a, k, f, e, into)

    def runs(self, t):
        """The functions a thread (object) runs."""
        r = set(self.method(t[1], "run")) if t[0] == "inst" else set()
        return r or {v[1] for v in self.get(("field", t, "@f")) if v[0] in ("func", "bound")}

    def start(self, c, a, k, f, e, into):
        todo = [(c, [])]
        while todo:
            v, pre = todo.pop()
            if v[0] == "func" or v[0] == "bound":
                first = [{v[2]}] if v[0] == "bound" else []
                into.setdefault((f.qual, id(e)), set()).add(v[1])
                fn = self.fns[v[1]]
                self.bind(v[1], first + pre, {})
                for n in fn.params[len(first):]:
                    self.add(("v", v[1], n), a | k)
            elif v[0] == "partial":
                n = next(iter(self.get(("n", v))), 0)
                pos = [set(self.get(("field", v, "@%d" % i))) for i in range(n)]
                todo.extend((x, pos + pre) for x in self.get(("field", v, "@f")))

    def bind(self, q, args, kw):
        fn = self.fns[q]
        a = fn.node.args
        names = fn.params
        for i, x in enumerate(args):
            if isinstance(x, tuple):
                for n in names[i:]:
                    self.add(("v", q, n), x[1])
                if a.vararg:
                    c = ("cont", q + " *")
                    self.add(("v", q, a.vararg.arg), {c})
                    self.add(("elem", c), x[1])
                continue
            if i < len(names):
                self.add(("v", q, names[i]), x)
            elif a.vararg:
                c = ("cont", q + " *")
                self.add(("v", q, a.vararg.arg), {c})
                self.add(("elem", c), x)
        known = set(names) | {x.arg for x in a.kwonlyargs}
        for k, x in kw.items():
            if k == "**":
                for n in known:
                    self.add(("v", q, n), x)
            elif k in known:
                self.add(("v", q, k), x)
            elif a.kwarg:
                c = ("cont", q + " **")
                self.add(("v", q, a.kwarg.arg), {c})
                self.add(("elem", c), x)

    def call(self, q, args, kw, f, e):
        self.nodes[id(e)] = e
        s = self.calls.setdefault((f.qual, id(e)), set())
        if q not in s:
            s.add(q)
            self.changed = True
        self.bind(q, args, kw)
        fn = self.fns[q]
        if "contextmanager" in self.deconames(fn):
            return {("cm", q)}
        if fn.isgen:
            return {("gen", q)}
        return set(self.get(("ret", q)))
