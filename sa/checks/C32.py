"""C32: lock order, re-acquisition, release on every path, and fields accessed under the lock that guards them."""

import ast

from ..points import Points, GET, WRITES

TECHNIQUE = ("whole-program lock analysis over the syntax tree: points-to analysis (by allocation site, with the call graph and the "
             "threads that follow from it), lock-order graph with transitive acquisitions, held-at-entry fixpoint, inferred guarded-by")
NOTE = ("Locks are told apart by where they are made, so two instances of one class share a node; a reentrant lock may be taken again. "
        "A field is guarded if it is a slot counter, queue, buffer or table of callbacks, or accessed under the lock of its object "
        "somewhere and changed in place; a plain flag is not.")

ORDER = "locks are acquired in one order"
AGAIN = "no thread waits for a lock it holds"
WAIT = "no thread waits, holding a lock, for one that needs the lock"
RELEASE = "a lock is released on every path"
GUARD = "shared state is accessed under the lock that guards it"
PLAIN = ("__init__", "__repr__", "__str__", "__unicode__", "__new__", "__del__")
ANY = "any"
NEVER = {"debug", "info", "warning", "error", "exception", "is_set", "isEnabledFor"}
VIEWS = {"items", "keys", "values", "iteritems", "itervalues", "iterkeys"}


class Held(object):
    """The locks held at a point: (lock, path of its owner or None) -> certainly held."""

    __slots__ = ("d",)

    def __init__(self, d=()):
        self.d = dict(d)

    def plus(self, locks, path, sure):
        h = Held(self.d)
        for l in locks:
            h.d[(l, path)] = h.d.get((l, path), False) or (sure and len(locks) == 1)
        return h

    def minus(self, locks):
        h = Held({k: v for k, v in self.d.items() if k[0] not in locks})
        return h

    def meet(self, o):
        if o is None:
            return self
        h = Held()
        for k in set(self.d) | set(o.d):
            h.d[k] = self.d.get(k, False) and o.d.get(k, False)
        return h

    def may(self):
        return {k[0] for k in self.d}

    def must(self):
        return {k for k, v in self.d.items() if v}


class Locks(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = Points()
        self.acq = {}        # function -> {lock: where it is taken}, directly
        self.sites = []      # (function, node, locks, held, blocking, path)
        self.callsat = []    # (function, node, quals, held)
        self.joinsat = []
        self.waits = []      # (function, node, events, held)
        self.sets = []
        self.accesses = []   # (field owner class, field, base path, function, node, held, kind)
        self.yields = {}     # context manager function -> locks held at its yield
        self.alias = {}
        self.cms = {}
        ctx.functions |= {q for q, f in self.p.fns.items() if not isinstance(f.node, ast.ClassDef)}
        self.owned = self.owners()
        for _ in range(3):   # what a context manager holds at its yield is used where it is entered
            before = {k: set(v) for k, v in self.yields.items()}
            self.sites, self.callsat, self.accesses, self.joinsat, self.waits, self.sets, self.unknown = [], [], [], [], [], [], []
            self.unreleased = {}
            for f in self.p.fns.values():
                if not isinstance(f.node, ast.ClassDef):
                    self.function(f)
            if before == {k: set(v) for k, v in self.yields.items()}:
                break
        self.closure()

    # ------------------------------------------------------------ facts
    def owners(self):
        """Class -> {attribute: lock} of the locks its instances own."""
        r = {}
        for n, v in self.p.pts.items():
            if n[0] == "attr":
                ls = {x for x in v if isinstance(x, tuple) and x[0] == "lock"}
                if ls:
                    r.setdefault(n[1], {})[n[2]] = ls
        return r

    def locks(self, e, f):
        return {x for x in self.p.ev(e, f) if x[0] == "lock"}

    def path(self, e, f, depth=0):
        """The access path of an expression, names that stand for one thing replaced by it; None if not a path."""
        if isinstance(e, ast.Name):
            a = self.alias.get((f.qual, e.id))
            if a is not None and depth < 6:
                return self.path(a, f, depth + 1)
            return e.id
        if isinstance(e, ast.Attribute):
            b = self.path(e.value, f, depth)
            return None if b is None else b + "." + e.attr
        return None

    def find_alias(self, f):
        count, value = {}, {}
        for st in self.p.walk(f.body):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                value[st.targets[0].id] = st.value
            if isinstance(st, ast.Name) and isinstance(st.ctx, (ast.Store, ast.Del)):
                count[st.id] = count.get(st.id, 0) + 1
        for n, v in value.items():
            if count.get(n) == 1 and n not in f.params and isinstance(v, (ast.Attribute, ast.Name)):
                self.alias[(f.qual, n)] = v

    # ---------------------------------------------------------- walking
    def function(self, f):
        self.find_alias(f)
        self.f = f
        self.finals = []
        self.manual = {}
        end = self.block(f.body, Held())
        if end is not None:
            self.leave(end, f.node)

    def leave(self, held, node):
        """The function ends here: what it took by hand must be released (by an enclosing finally at the latest)."""
        if getattr(self.f.node, "name", "") in ("__enter__", "acquire", "lock", "_acquire"):
            if self.f.node.name == "__enter__":
                self.yields[self.f.qual] = dict(held.d)
            return
        for l in held.may():
            if l in self.manual and not any(l in x for x in self.finals):
                self.unreleased[(l, self.f.qual)] = (self.f, self.manual[l], "the function ends at line %d" % getattr(
                    node, "lineno", 0))

    def block(self, body, held):
        for st in body:
            if held is None:
                return None
            held = self.stmt(st, held)
        return held

    def stmt(self, st, held):
        if isinstance(st, (ast.With, ast.AsyncWith)):
            inner = held
            for i in st.items:
                self.expr(i.context_expr, inner)
                inner = self.enter(i.context_expr, inner)
                if i.optional_vars is not None:
                    self.targets(i.optional_vars, inner)
            self.finals.append({k[0] for k in inner.d if k not in held.d})
            out = self.block(st.body, inner)
            self.finals.pop()
            if out is None:
                # a context manager may swallow what is raised
                return None if not self.swallows(st) else held
            return Held({k: v for k, v in out.d.items() if k in held.d or k not in inner.d})
        if isinstance(st, ast.Try) or type(st).__name__ == "TryStar":
            rel = set()
            for x in st.finalbody:
                for c in ast.walk(x):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "release":
                        rel |= self.locks(c.func.value, self.f)
            self.finals.append(rel)
            caught = any(h.type is None or self.broad(h.type) for h in st.handlers)
            if caught:
                # what the handlers and the code after them release counts for the body
                self.finals.append(set(held.may()) | {ANY})
            out = self.block(st.body, held)
            if caught:
                self.finals.pop()
            if out is not None:
                out = self.block(st.orelse, out)
            # where the body fails, what it took by hand may be held
            start = held
            for h in st.handlers:
                o = self.block(h.body, start)
                out = o if out is None else (out.meet(o) if o is not None else out)
            self.finals.pop()
            if st.finalbody:
                o = self.block(st.finalbody, out if out is not None else held)
                return o if out is not None else None
            return out
        if isinstance(st, ast.If):
            got, neg = self.condition(st.test, held)
            self.expr(st.test, held)
            a = self.block(st.body, got if not neg else held)
            b = self.block(st.orelse, held if not neg else got)
            if a is None or b is None:
                return a if b is None else b
            return a.meet(b)
        if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(st, ast.While):
                self.expr(st.test, held)
            else:
                self.expr(st.iter, held)
                self.targets(st.target, held)
            a = self.block(st.body, held)
            if a is not None:
                self.block(st.body, held.meet(a))
            out = self.block(st.orelse, held)
            if isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value and not any(
                    isinstance(x, ast.Break) for x in ast.walk(st)):
                return None
            return out if out is not None else held
        if isinstance(st, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(st):
                if isinstance(x, ast.expr):
                    self.expr(x, held)
            self.leave(held, st) if isinstance(st, ast.Return) else self.fails(held, st)
            return None
        if isinstance(st, (ast.Break, ast.Continue)):
            return None
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return held
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute):
            c = st.value
            if c.func.attr == "acquire":
                ls = self.locks(c.func.value, self.f)
                if ls:
                    self.taken(c, ls, held, self.blocks(c))
                    for l in ls:
                        self.manual.setdefault(l, c)
                    return held.plus(ls, self.owner(c.func.value), self.blocks(c))
            if c.func.attr == "release":
                ls = self.locks(c.func.value, self.f)
                if ls:
                    return held.minus(ls)
            if c.func.attr == "enter_context" and c.args:
                self.expr(c, held)
                return self.enter(c.args[0], held)
        if isinstance(st, ast.Assign):
            self.expr(st.value, held)
            for t in st.targets:
                self.targets(t, held)
            c = st.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "acquire" and self.blocks(c):
                ls = self.locks(c.func.value, self.f)
                for l in ls:
                    self.manual.setdefault(l, c)
                return held.plus(ls, self.owner(c.func.value), True)
            return held
        if isinstance(st, ast.AugAssign):
            self.expr(st.value, held)
            self.targets(st.target, held, "changed")
            return held
        for x in ast.iter_child_nodes(st):
            if isinstance(x, ast.expr):
                if isinstance(st, ast.Delete):
                    self.targets(x, held)
                else:
                    self.expr(x, held)
        return held

    @staticmethod
    def broad(t):
        return any(getattr(x, "id", getattr(x, "attr", "")) in ("Exception", "BaseException") for x in ast.walk(t))

    def swallows(self, st):
        return any(isinstance(x, ast.Name) and x.id == "suppress" or isinstance(x, ast.Attribute) and x.attr == "suppress"
                   for i in st.items for x in ast.walk(i.context_expr))

    @staticmethod
    def blocks(c):
        """Does this acquire() wait for ever?"""
        args = list(c.args) + [k.value for k in c.keywords if k.arg in ("blocking", "timeout")]
        return not args or all(isinstance(a, ast.Constant) and (a.value is True or a.value == -1) for a in args)

    def condition(self, test, held):
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            neg, test = not neg, test.operand
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Attribute) and test.func.attr == "acquire":
            ls = self.locks(test.func.value, self.f)
            if ls:
                self.taken(test, ls, held, self.blocks(test))
                for l in ls:
                    self.manual.setdefault(l, test)
                return held.plus(ls, self.owner(test.func.value), True), neg
        return held, False

    def owner(self, e):
        p = self.path(e, self.f)
        return p.rpartition(".")[0] if p and "." in p else None

    def enter(self, e, held):
        """The locks held inside of `with e`."""
        for v in self.p.ev(e, self.f):
            if v[0] == "lock":
                ls = self.locks(e, self.f)
                self.taken(e, ls, held, True)
                return held.plus(ls, self.owner(e), True)
        for v in self.p.ev(e, self.f):
            if v[0] == "cm" or v[0] == "inst":
                quals = [v[1]] if v[0] == "cm" else list(self.p.method(v[1], "__enter__"))
                for q in quals:
                    for (l, path), sure in self.yields.get(q, {}).items():
                        held = held.plus({l}, self.back(path, e, q), sure)
        return held

    def back(self, path, call, q):
        """A path of the callee's, in the caller's terms."""
        if path is None or q not in self.p.calls.get((self.f.qual, id(call)), ()):
            return None
        fn = self.p.fns[q]
        head, _, rest = path.partition(".")
        b = self.binding(call, q, fn).get(head)
        return None if b is None else b + ("." + rest if rest else "")

    def binding(self, call, q, fn):
        r = {}
        if not isinstance(call, ast.Call):
            return r
        names = list(fn.params)
        args = list(call.args)
        if fn.cls is not None and names and "staticmethod" not in self.p.deconames(fn):
            func = call.func
            recv = None
            if isinstance(func, ast.Attribute):
                recv = self.path(func.value, self.f)
                if isinstance(func.value, ast.Call) and getattr(func.value.func, "id", "") == "super" and self.f.params:
                    recv = self.f.params[0]
                if any(v[0] == "class" for v in self.p.ev(func.value, self.f)) and any(
                        v == ("func", q) for v in self.p.ev(func, self.f)):
                    recv = self.path(args.pop(0), self.f) if args else None
            elif args and any(v == ("func", q) for v in self.p.ev(func, self.f)):
                recv = self.path(args.pop(0), self.f)
            elif any(v[0] == "inst" for v in self.p.ev(func, self.f)):
                recv = self.path(func, self.f)
            if recv is not None:
                r[names[0]] = recv
            names = names[1:]
        for n, a in zip(names, args):
            if isinstance(a, ast.Starred):
                break
            pa = self.path(a, self.f)
            if pa is not None:
                r[n] = pa
        for k in call.keywords:
            pa = self.path(k.value, self.f) if k.arg else None
            if pa is not None:
                r[k.arg] = pa
        return r

    def taken(self, node, ls, held, blocking):
        self.sites.append((self.f, node, ls, held, blocking))
        for l in ls:
            if blocking:
                self.acq.setdefault(self.f.qual, {}).setdefault(l, self.f.loc(node))

    def fails(self, held, node):
        """Something may be raised here: what was taken by hand must be released by an enclosing finally (or handler)."""
        for l in held.may():
            if l in self.manual and not any(l in x or ANY in x for x in self.finals):
                self.unreleased.setdefault((l, self.f.qual), (self.f, self.manual[l], "line %d may raise" % node.lineno))

    def targets(self, t, held, kind="stored"):
        if isinstance(t, ast.Attribute):
            self.access(t, held, kind)
            self.expr(t.value, held)
        elif isinstance(t, ast.Subscript):
            self.expr(t.value, held, "changed")
            self.expr(t.slice, held)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.targets(x, held, kind)
        elif isinstance(t, ast.Starred):
            self.targets(t.value, held, kind)

    def expr(self, e, held, kind="read"):
        if isinstance(e, (ast.Yield,)):
            if self.f.isgen:
                y = self.yields.setdefault(self.f.qual, dict(held.d))
                for k in list(y):
                    y[k] = y[k] and held.d.get(k, False)
                for k in held.d:
                    y.setdefault(k, False)
            if e.value is not None:
                self.expr(e.value, held)
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, ast.Attribute):
            self.access(e, held, kind)
            self.calls_at(e, held)
            self.expr(e.value, held)
            return
        if isinstance(e, ast.Name):
            a = self.alias.get((self.f.qual, e.id))
            if a is not None and isinstance(a, ast.Attribute) and not self.rebound(a):
                self.access(a, held, kind, e)
            return
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Attribute):
                vs = self.p.ev(fn.value, self.f)
                evs = {v for v in vs if v[0] == "event"}
                if evs and fn.attr == "wait":
                    self.waits.append((self.f, e, evs, held))
                if evs and fn.attr == "set":
                    self.sets.append((self.f, e, evs, held))
                if fn.attr == "acquire" and any(v[0] == "lock" for v in vs):
                    self.taken(e, {v for v in vs if v[0] == "lock"}, held, self.blocks(e))
                self.expr(fn.value, held, "changed" if fn.attr in WRITES or evs and fn.attr in ("set", "clear") else kind if fn.attr in GET else "read")
                self.access(fn, held, "read")
            else:
                self.expr(fn, held)
                if not self.p.ev(fn, self.f) and not isinstance(fn, ast.Lambda):
                    self.unknown.append((self.f, e, held))
            for a in e.args:
                self.expr(a.value if isinstance(a, ast.Starred) else a, held)
            for k in e.keywords:
                self.expr(k.value, held)
            self.calls_at(e, held)
            if isinstance(fn, ast.Attribute) and fn.attr == "release":
                return
            if not (isinstance(fn, ast.Attribute) and fn.attr in NEVER | {"acquire"}):
                self.fails(held, e)
            return
        if isinstance(e, ast.Subscript):
            self.expr(e.value, held, "changed" if isinstance(e.ctx, ast.Del) else kind)
            self.expr(e.slice, held)
            return
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.expr(x, held)
            elif isinstance(x, ast.comprehension):
                self.expr(x.iter, held)
                for c in x.ifs:
                    self.expr(c, held)

    def calls_at(self, e, held):
        quals = self.p.calls.get((self.f.qual, id(e)))
        if quals:
            self.callsat.append((self.f, e, quals, held))
        js = self.p.joins.get((self.f.qual, id(e)))
        if js:
            self.joinsat.append((self.f, e, js, held))

    def rebound(self, a):
        return any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == a.attr for b in self.f.body
                   for x in ast.walk(b))

    def access(self, e, held, kind, at=None):
        base = None
        for v in self.p.ev(e.value, self.f):
            if v[0] == "inst":
                base = base or self.path(e.value, self.f) or "?"
                self.accesses.append((v[1], e.attr, base, self.f, at or e, held, kind))

    # ------------------------------------------------------- interprocedural
    def closure(self):
        """The locks each function takes, itself or in what it calls."""
        self.all = {q: {l: (w,) for l, w in d.items()} for q, d in self.acq.items()}
        callees = {}
        for f, e, quals, _ in self.callsat:
            for q in quals:
                callees.setdefault(f.qual, []).append((q, f.loc(e)))
        # a with statement runs the context manager's code
        changed = True
        while changed:
            changed = False
            for q, cs in callees.items():
                mine = self.all.setdefault(q, {})
                for c, loc in cs:
                    for l, chain in list(self.all.get(c, {}).items()):
                        if l not in mine:
                            mine[l] = (loc,) + chain
                            changed = True
        # what is certainly held at the entry of each function: (lock, path in the function's own terms)
        callers = {}
        for f, e, quals, held in self.callsat:
            for q in quals:
                callers.setdefault(q, []).append((f, e, held))
        roots = set()
        for s in self.p.threads.values():
            roots |= s
        for v in self.p.escaped:
            if v[0] in ("func", "bound"):
                roots.add(v[1])
        self.entry = {}
        for q, f in self.p.fns.items():
            self.entry[q] = set() if q in roots or q not in callers else None
        changed = True
        while changed:
            changed = False
            for q, sites in callers.items():
                if self.entry.get(q) == set():
                    continue
                fn = self.p.fns[q]
                acc = None
                for f, e, held in sites:
                    if f.qual != q and self.entry.get(f.qual) is None:
                        continue            # not reached (yet)
                    if self.private(f, e, q, fn):
                        continue
                    self.f = f
                    b = self.binding(e, q, fn)
                    have = set()
                    for l, path in held.must() | (self.entry[f.qual] or set()):
                        tr = None
                        if path is not None:
                            for n, pa in b.items():
                                if path == pa:
                                    tr = n
                                elif path.startswith(pa + "."):
                                    tr = n + path[len(pa):]
                            if tr is None:
                                tr = "^" + path
                        have.add((l, tr))
                    if f.qual == q:
                        have |= {k for k in (acc or ())}
                    acc = have if acc is None else acc & have
                if acc is not None and (self.entry[q] is None or acc != self.entry[q]):
                    new = acc if self.entry[q] is None else acc & self.entry[q]
                    if new != self.entry[q]:
                        self.entry[q] = new
                        changed = True
        self.unreached = {q for q, v in self.entry.items() if v is None}

    def private(self, f, e, q, fn):
        """A call on an object that is still being made: it is not shared."""
        if f.cls is None or getattr(f.node, "name", "") != "__init__" or fn.cls is None:
            return False
        self.f = f
        b = self.binding(e, q, fn)
        return bool(fn.params) and bool(f.params) and b.get(fn.params[0]) == f.params[0]


def show(l):
    return "the lock made at %s" % l[1].rpartition(":")[0].replace(" ", ":")


def run(ctx):
    ctx.rule(ORDER + ": the graph of (held -> acquired), with what called functions acquire, has no cycle")
    ctx.rule(AGAIN + ": no path from where a non-reentrant lock is held to a place that takes it")
    ctx.rule(WAIT + " (join, wait)")
    ctx.rule(RELEASE + ": taken by `with`, or released in a finally or handler")
    ctx.rule(GUARD + ": at every access outside of constructors the lock of the same object is certainly held")
    ctx.assume("callables that the program hands to a library are called with no lock of the agent's held")
    k = Locks(ctx)
    p = k.p
    name = {}
    for cid, d in k.owned.items():
        for a, ls in d.items():
            for l in ls:
                name.setdefault(l, "%s.%s" % (cid.split(":")[1], a))

    def nm(l):
        return name.get(l) or show(l)

    edges = {}
    for f, node, ls, held, blocking in k.sites:
        ctx.count("acquisitions")
        if not blocking:
            continue
        for l in ls:
            ctx.ok(AGAIN, "%s of %s" % (f.loc(node), nm(l)))
            for h in held.may():
                edges.setdefault((h, l), (f, node, (f.loc(node),)))
    for f, node, quals, held in k.callsat:
        hs = held.may()
        if not hs:
            continue
        ctx.count("calls under a lock")
        for q in sorted(quals):
            for l, chain in k.all.get(q, {}).items():
                for h in hs:
                    edges.setdefault((h, l), (f, node, (f.loc(node),) + chain))
    for (h, l), (f, node, chain) in sorted(edges.items(), key=str):
        if h == l:
            ctx.check(l[2], AGAIN, f.loc(node), "%s is held and is waited for again: it is not reentrant" % nm(l),
                      ["%s" % c for c in chain], key="again %s in %s" % (nm(l), f.qual))
    # a callable that anyone may have given may call the public methods of the object
    for f, node, held in k.unknown:
        for l in held.may():
            own = {c for c, d in k.owned.items() if any(l in ls for ls in d.values())}
            again = sorted(q for q, d in k.all.items() if l in d and p.fns[q].cls in own and not p.fns[q].node.name.startswith("_"))
            ctx.check(l[2] or not again, AGAIN, f.loc(node), "%s is held, and not reentrant, while a callback is called that may use "
                      "%s, which waits for it" % (nm(l), again[0] if again else ""), key="callback %s in %s" % (nm(l), f.qual))
    # cycles of different locks
    reach = {}
    for h, l in edges:
        if h != l:
            reach.setdefault(h, set()).add(l)
    done = set()
    for h in sorted(reach, key=str):
        for l in sorted(reach[h], key=str):
            back = way(reach, l, h)
            f, node, chain = edges[(h, l)]
            ctx.ok(ORDER, "%s before %s (%s)" % (nm(h), nm(l), f.loc(node)))
            if back:
                cyc = frozenset([h] + back)
                if cyc in done:
                    continue
                done.add(cyc)
                o = edges[(back[0], back[1])] if len(back) > 1 else None
                ctx.bad(ORDER, f.loc(node), "%s is acquired while %s is held, and the other way round at %s" % (
                    nm(l), nm(h), o[0].loc(o[1]) if o else "?"), list(chain) + ["--"] + [c for a, b in zip(back, back[1:])
                                                                                        for c in edges[(a, b)][2]],
                    key="order " + ",".join(sorted(map(nm, cyc))))
    # waiting for a thread or an event
    for f, node, ts, held in k.joinsat:
        if not unbounded(node):
            continue
        for t in ts:
            for q in p.runs(t):
                need = set(k.all.get(q, ()))
                both = {l for l in need & held.may()}
                ctx.check(not both, WAIT, f.loc(node), "%s is held while waiting for a thread that takes it" % ", ".join(
                    map(nm, both)), key="join in " + f.qual)
    for f, node, evs, held in k.waits:
        if not unbounded(node):
            continue
        hold = held.may() | {l for l, _ in k.entry.get(f.qual) or ()}
        for ev in evs:
            setters = [(g, h) for g, n, es, h in k.sets if ev in es]
            need = None
            for g, h in setters:
                have = {l for l, _ in h.must() | (k.entry.get(g.qual) or set())}
                need = have if need is None else need & have
            ctx.check(not (need and need & hold), WAIT, f.loc(node), "%s is held while waiting for an event that is only set "
                      "under it" % ", ".join(map(nm, (need or set()) & hold)), key="event in " + f.qual)
    # release
    for (l, q), (f, node, why) in sorted(k.unreleased.items(), key=str):
        if handed_over(k, l, q):
            ctx.ok(RELEASE, "%s, taken at %s, is released by the thread that is started" % (nm(l), f.loc(node)))
            continue
        ctx.bad(RELEASE, f.loc(node), "%s is taken here and not released: %s" % (nm(l), why), key="release %s in %s" % (nm(l), q))
    guarded(ctx, k, nm)
    ctx.steps = len(k.callsat) + len(k.accesses)
    ctx.count("threads started", len(p.threads))
    ctx.count("edges", len(edges))
    ctx.digest = p.digest
    ctx.need("acquisitions", 5)
    ctx.need("threads started", 5)


def unbounded(node):
    if not isinstance(node, ast.Call):
        return True
    a = list(node.args) + [x.value for x in node.keywords]
    return not a or not (isinstance(a[0], ast.Constant) and isinstance(a[0].value, (int, float)))


def way(reach, a, b):
    prev, work = {a: None}, [a]
    while work:
        x = work.pop(0)
        if x == b:
            r = []
            while x is not None:
                r.append(x)
                x = prev[x]
            return r[::-1]
        for y in sorted(reach.get(x, ()), key=str):
            if y not in prev:
                prev[y] = x
                work.append(y)
    return None


ROLES = {"Limiter": ("changed",), "Channel": ("changed",), "Connection": ("changed",), "WSClient": ("callbacks",)}


def handed_over(k, l, q):
    """The lock is not taken by, but released in a finally of, what runs in a thread that the function starts."""
    todo = [t for (site, _), ts in k.p.threads.items() if site == q for t in ts]
    seen = set()
    while todo:
        t = todo.pop()
        if t in seen or t not in k.p.fns:
            continue
        seen.add(t)
        f = k.p.fns[t]
        if l not in k.acq.get(t, {}):
            for x in ast.walk(f.node):
                if isinstance(x, ast.Try):
                    for c in [c for y in x.finalbody for c in ast.walk(y)]:
                        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "release" and l in k.locks(
                                c.func.value, f):
                            return True
        todo += [x for g, _, quals, _ in k.callsat if g.qual == t for x in quals]
    return False


def guarded(ctx, k, nm):
    p = k.p
    fields = {}
    for cid, field, base, f, node, held, kind in k.accesses:
        fields.setdefault((cid, field), []).append((base, f, node, held, kind))
    for (cid, field), accs in sorted(fields.items(), key=str):
        owner = {}
        for c in p.mro(cid):
            for a, ls in k.owned.get(c, {}).items():
                owner[a] = ls
        locks = {l for ls in owner.values() for l in ls}
        if p.method(cid, field):
            continue
        kinds = {v[0] for v in p.get(("attr", cid, field)) if isinstance(v, tuple)}
        if "lock" in kinds:
            for a in accs:
                if a[4] == "stored" and not skip(p, k, cid, a):
                    ctx.bad(GUARD, a[1].loc(a[2]), "the lock %s.%s is replaced while threads may use it" % (cid.split(":")[1], field),
                            key="replaced %s.%s in %s" % (cid, field, a[1].qual))
            continue
        use = [a for a in accs if not skip(p, k, cid, a)]
        if "event" in kinds:            # looking at an event and waiting for it are always safe
            use = [a for a in use if a[4] == "changed"]
        if not any(a[4] == "changed" for a in use):
            continue
        role = ROLES.get(cid.split(":")[1])
        wanted = "event" not in kinds and (role == ("changed",) or role == ("callbacks",) and calls(p, cid, field))
        counts = {}
        for base, f, node, held, kind in use:
            for l in under(k, base, f, held, locks):
                counts[l] = counts.get(l, 0) + 1
        # looked at under a lock by the way: not guarded by it
        counts = {l: n for l, n in counts.items() if 2 * n >= len(use) or any(
            a[4] == "changed" and l in under(k, a[0], a[1], a[3], locks) for a in use)}
        if not counts and not wanted:
            continue
        if not locks and wanted:
            base, f, node, held, kind = use[0]
            ctx.bad(GUARD, f.loc(node), "%s.%s is changed by several threads, and no lock guards it" % (cid.split(":")[1], field),
                    key="guard %s.%s in %s" % (cid, field, f.qual))
            continue
        lock = max(sorted(counts, key=str), key=lambda x: counts[x]) if counts else None
        ctx.count("guarded fields")
        for base, f, node, held, kind in use:
            good = lock is not None and lock in under(k, base, f, held, locks)
            ctx.check(good, GUARD, "%s %s.%s" % (f.loc(node), cid.split(":")[1], field), "%s.%s is %s without %s" % (
                cid.split(":")[1], field, "read" if kind == "read" else "changed", nm(lock) if lock else "a lock"),
                key="guard %s.%s in %s" % (cid, field, f.qual))


def skip(p, k, cid, a):
    base, f, node, held, kind = a
    name = getattr(f.node, "name", "")
    if f.qual in k.unreached:
        return True
    if name.startswith("_") and not name.startswith("__") and not p.used(name):
        return True
    g = f
    while g is not None:
        if g.cls is not None and getattr(g.node, "name", "") in PLAIN and g.params and base == g.params[0]:
            return True
        g = g.outer if g.cls is None else None
    return False


def under(k, base, f, held, locks):
    """The locks of the same object that are certainly held at the access."""
    r = set()
    for l, path in held.must() | (k.entry.get(f.qual) or set()):
        if l in locks and (path is None or base == "?" or path == base or path.startswith("^")):
            r.add(l)
    return r


def calls(p, cid, field):
    """Does the field hold callables (callbacks)?"""
    seen, work = set(), list(p.get(("attr", cid, field)))
    while work:
        v = work.pop()
        if v in seen or not isinstance(v, tuple):
            continue
        seen.add(v)
        if v[0] in ("func", "bound", "partial"):
            return True
        if v[0] == "cont":
            work.extend(p.get(("elem", v)))
    return False
