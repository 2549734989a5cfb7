"""Executing statements over abstract states."""

import ast

from .live import heads as live_heads
from .terms import T, mk, const, is_const, cval, is_call, ext, ref, NONE, TRUE, FALSE
from .state import HObj
from .program import AnalysisError, Func, Class
from . import models

WIDEN = 3
MAX_STATES = 3000
MISSING_MODULES = set("urllib2 urlparse ConfigParser Queue StringIO __builtin__ cPickle cStringIO httplib commands "
                      "thread".split())


class Out(object):
    __slots__ = ("rets", "raises", "brks", "conts", "exits")

    def __init__(self):
        self.rets = []
        self.raises = []
        self.brks = []
        self.conts = []
        self.exits = []


def part_of(items, o):
    """Whether items is a run of the items the list o holds."""
    if o is None or o.items is None or len(o.items) > 12:
        return False
    n = len(items)
    return any(o.items[i:i + n] == items for i in range(len(o.items) - n + 1))


class Stmts(object):

    def newout(self):
        return Out()

    def block(self, st, stmts, out):
        cur = [st]
        for node in stmts:
            nxt = []
            for s in cur:
                nxt.extend(self.stmt(s, node, out))
            cur = self.dedupe(nxt)
            if not cur:
                break
        return cur

    def dedupe(self, states):
        if len(states) < 2:
            return states
        seen = {}
        for s in states:
            seen.setdefault(s.key(), s)
        states = list(seen.values())
        if len(states) > 48:
            states = self.squash(states)
        if len(states) > 600:
            states = self.blur(states)
        if len(states) > MAX_STATES:
            raise AnalysisError("too many states")
        return states

    def blur(self, states):
        """Very many states: forget what the dictionaries they differ in hold."""
        first = states[0].heap
        differ = set()
        for s in states[1:]:
            for a, o in s.heap.items():
                if o.kind == "dict" and (a not in first or first[a].key() != o.key()):
                    differ.add(a)
        seen = {}
        for s in states:
            for a in differ:
                o = s.heap.get(a)
                if o is not None and o.kind == "dict" and o.items:
                    s = s.setobj(a, o.with_(items={}, rest=True, taint=o.taint | frozenset(
                        v for v in o.items.values() if isinstance(v, T))))
            seen.setdefault(s.key(), s)
        return self.squash(list(seen.values()))

    def stmt(self, st, node, out):
        self.stats["steps"] = self.stats.get("steps", 0) + 1
        if self.stats["steps"] > self.max_steps:
            raise AnalysisError("step limit at %s" % self.loc(st, node))
        m = getattr(self, "s_" + node.__class__.__name__, None)
        if m is None:
            raise AnalysisError("unsupported statement %s at %s" % (node.__class__.__name__, self.loc(st, node)))
        self.mon.at(self, st, node)
        return m(st, node, out)

    def s_Pass(self, st, node, out):
        return [st]

    def s_Expr(self, st, node, out):
        if isinstance(node.value, ast.Constant):
            return [st]
        return self.dedupe([s for s, _ in self.eval(st, node.value, out)])

    def s_Global(self, st, node, out):
        return [st]

    s_Nonlocal = s_Global

    def s_Assign(self, st, node, out):
        res = []
        for s, v in self.eval(st, node.value, out):
            cur = [s]
            for t in node.targets:
                cur = [s3 for s2 in cur for s3 in self.assign(s2, t, v, out)]
            res.extend(cur)
        return res

    def s_AnnAssign(self, st, node, out):
        if node.value is None:
            return [st]
        return [s2 for s, v in self.eval(st, node.value, out) for s2 in self.assign(s, node.target, v, out)]

    def s_AugAssign(self, st, node, out):
        t = node.target
        load = None
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(t.id, ast.Load()), t)
        res = []
        op = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**",
              "LShift": "<<", "RShift": ">>", "BitOr": "|", "BitXor": "^", "BitAnd": "&",
              "MatMult": "@"}[node.op.__class__.__name__]
        if load is not None:
            for s, (a, b) in self.eval_many(st, [load, node.value], out):
                if op == "+" and a.op == "ref":
                    o = self.obj(s, a)
                    if o is not None and o.kind == "list":
                        res.extend(s2 for s2, _ in self.call_method(s, a, "extend", (b,), (), node, out, None))
                        continue
                for s2, v in self.binop(s, op, a, b, node, out):
                    res.extend(self.assign(s2, t, v, out))
        elif isinstance(t, ast.Attribute):
            for s, base in self.eval(st, t.value, out):
                for s2, a in self.getattr_(s, base, t.attr, node, out):
                    for s3, b in self.eval(s2, node.value, out):
                        if op == "+" and a.op == "ref":
                            o = self.obj(s3, a)
                            if o is not None and o.kind == "list":
                                res.extend(s4 for s4, _ in self.call_method(s3, a, "extend", (b,), (), node, out, None))
                                continue
                        for s4, v in self.binop(s3, op, a, b, node, out):
                            res.extend(self.setattr_(s4, base, t.attr, v, node, out))
        elif isinstance(t, ast.Subscript):
            for s, (base, k) in self.eval_many(st, [t.value, t.slice], out):
                for s2, a in self.getitem(s, base, k, node, out):
                    for s3, b in self.eval(s2, node.value, out):
                        for s4, v in self.binop(s3, op, a, b, node, out):
                            res.extend(self.setitem(s4, base, k, v, node, out))
        else:
            raise AnalysisError("augmented assignment at %s" % self.loc(st, node))
        return res

    def assign(self, st, target, v, out):
        if isinstance(target, ast.Name):
            fid = self.scope_of(st, target.id)
            return [st.setvar(fid, target.id, v)]
        if isinstance(target, ast.Attribute):
            return [s2 for s, b in self.eval(st, target.value, out)
                    for s2 in self.setattr_(s, b, target.attr, v, target, out)]
        if isinstance(target, ast.Subscript):
            return [s2 for s, (b, k) in self.eval_many(st, [target.value, target.slice], out)
                    for s2 in self.setitem(s, b, k, v, target, out)]
        if isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            star = [i for i, x in enumerate(target.elts) if isinstance(x, ast.Starred)]
            items = self.iter_items(st, v)
            if items is None and v.op == "call" and models.FIXED_ARITY.get(v.args[0]) == n and not star:
                items = [mk("item", v, const(i)) for i in range(n)]
            if items is None:
                if not star and self.mon.unpack_raises(self, st, v, n, target):
                    self.raise_(st, out, "ValueError", True, target)
                    if self.typeof(st, v) is None:
                        self.raise_(st, out, "TypeError", True, target)
                items = [mk("item", v, const(i)) for i in range(n)]
                if star:
                    items[star[0]] = mk("slice", v, const(star[0]), NONE, NONE)
            else:
                items = list(items)
                if star:
                    i = star[0]
                    k = len(items) - (n - 1)
                    if k < 0:
                        self.raise_(st, out, "ValueError", True, target)
                        return []
                    st, lst = self.new(st, HObj("list", items=tuple(items[i:i + k])), target)
                    items = items[:i] + [lst] + items[i + k:]
                elif len(items) != n:
                    self.raise_(st, out, "ValueError", True, target)
                    return []
            cur = [st]
            for t, x in zip(target.elts, items):
                if isinstance(t, ast.Starred):
                    t = t.value
                cur = [s2 for s in cur for s2 in self.assign(s, t, x, out)]
            return cur
        if isinstance(target, ast.Starred):
            return self.assign(st, target.value, v, out)
        raise AnalysisError("assignment target at %s" % self.loc(st, target))

    def scope_of(self, st, name):
        f = st.frames[st.cur]
        fn = self.funcs.get(f.get("@func"))
        if fn is not None:
            if name in fn.globals:
                return "mod:" + f["@mod"]
            if name in fn.nonlocals:
                fid = f.get("@parent")
                while fid is not None and fid in st.frames:
                    if name in st.frames[fid]:
                        return fid
                    fid = st.frames[fid].get("@parent")
        return st.cur

    def s_Delete(self, st, node, out):
        cur = [st]
        for t in node.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    nxt.append(s.delvar(self.scope_of(s, t.id), t.id))
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.eval(s, t.value, out):
                        o = self.obj(s2, b) if b.op == "ref" else None
                        if o is not None and o.kind in ("inst", "ext"):
                            nxt.append(s2.setobj(b.args[0], o.del_item(t.attr)))
                        else:
                            nxt.append(s2)
                elif isinstance(t, ast.Subscript):
                    for s2, (b, k) in self.eval_many(s, [t.value, t.slice], out):
                        nxt.extend(self.delitem(s2, b, k, node, out))
                else:
                    raise AnalysisError("del at %s" % self.loc(st, node))
            cur = nxt
        return cur

    def s_Return(self, st, node, out):
        if node.value is None:
            out.rets.append((st, NONE))
        else:
            out.rets.extend(self.eval(st, node.value, out))
        return []

    def s_Break(self, st, node, out):
        out.brks.append(st)
        return []

    def s_Continue(self, st, node, out):
        out.conts.append(st)
        return []

    def s_If(self, st, node, out):
        ts, fs = self.branch(st, node.test, out)
        res = []
        for s in self.dedupe(ts):
            res.extend(self.block(s, node.body, out))
        for s in self.dedupe(fs):
            res.extend(self.block(s, node.orelse, out) if node.orelse else [s])
        return res

    def s_Assert(self, st, node, out):
        ts, fs = self.branch(st, node.test, out)
        for s in fs:
            if not self.mon.assert_holds(self, s, node):
                self.raise_(s, out, "AssertionError", True, node)
        return ts

    # ------------------------------------------------------------ exceptions
    def raise_(self, st, out, name, exact, node, origin=None, value=None):
        if value is None:
            value = mk("exc", name, exact, self.site(st, node), origin)
        r = self.mon.raising(self, st, name, node, origin)
        if r is False:
            return
        out.raises.append((st, (name, exact, frozenset(), value)))

    def exc_of(self, st, v):
        """Exception tuple for raising value v."""
        if v.op == "excv":
            return (v.args[0], True, frozenset(), v)
        if v.op == "class":
            return (v.args[0], True, frozenset(), v)
        if v.op == "ref":
            o = self.obj(st, v)
            if o is not None and o.kind == "inst":
                return (o.cls, True, frozenset(), v)
        if v.op == "ext":
            from .program import canon_exc

            return (canon_exc(v.args[0]), True, frozenset(), v)
        if v.op == "exc":
            return (v.args[0], v.args[1], frozenset(), v)
        if v.op == "caught":
            return (v.args[0], v.args[1], frozenset(), v)
        return ("BaseException" if False else "Exception", False, frozenset(), v)

    def s_Raise(self, st, node, out):
        if node.exc is None:
            if not st.excs:
                self.raise_(st, out, "RuntimeError", True, node)
                return []
            out.raises.append((st, st.excs[-1]))
            return []
        for s, v in self.eval(st, node.exc, out):
            # re-raising a caught exception object keeps what is known of it
            x = None
            for e in s.excs:
                if e[3] is v:
                    x = e
            if x is None and v.op == "class":
                for s2, v2 in self.instantiate(s, v, (), (), node, out):
                    out.raises.append((s2, self.exc_of(s2, v2)))
                continue
            out.raises.append((s, x or self.exc_of(s, v)))
        return []

    def exception_class(self, name):
        """The ancestors of a class that is known to be an exception, or None."""
        from .program import builtin_exc, EXT_EXC, canon_exc

        for c in (self.mro(name) if name in self.classes else [name]):
            c = canon_exc(c)
            if c in EXT_EXC or builtin_exc(c) is not None:
                return self.ancestors(name)
        return None

    def ancestors(self, name):
        """Names of all classes an exception class derives from, incl. itself."""
        from .program import builtin_exc, EXT_EXC, canon_exc

        name = canon_exc(name)
        if name in self._anc:
            return self._anc[name]
        res = [name]
        if name in self.classes:
            for c in self.mro(name)[1:]:
                if c in self.classes:
                    res.append(c)
                else:
                    res.extend(x for x in self.ancestors(c) if x not in res)
        elif name in EXT_EXC:
            for b in EXT_EXC[name]:
                res.extend(self.ancestors(b))
        else:
            b = builtin_exc(name)
            if b is not None:
                res = [c.__name__ for c in b.__mro__]
            else:
                res = [name, "Exception", "BaseException", "object"]
        self._anc[name] = res
        return res

    def matches(self, exc, cname):
        """Does except <cname> catch exc: True, False or None (maybe)."""
        from .program import canon_exc

        cname = canon_exc(cname)
        name, exact, excluded, _ = exc
        name = canon_exc(name)
        anc = self.ancestors(name)
        if cname in anc:
            return True
        if exact:
            return False
        can = self.ancestors(cname)
        if name not in can:
            # neither related: multiple inheritance ignored
            return False
        for x in excluded:
            if x in can:
                return False
        return None

    def handler_names(self, st, node, out):
        """Exception class names of an except clause."""
        if node is None:
            return ["BaseException"]
        es = node.elts if isinstance(node, ast.Tuple) else [node]
        names = []
        for s, vs in self.eval_many(st, es, out)[:1]:
            work = list(vs)
            while work:
                v = work.pop(0)
                if v.op in ("class", "ext"):
                    names.append(v.args[0])
                elif v.op == "tuple":
                    work = list(v.args[0]) + work
                else:
                    raise AnalysisError("except clause at %s" % self.loc(st, node))
        return names

    def s_Try(self, st, node, out):
        inner = self.newout() if (node.finalbody) else out
        body = self.newout()
        normal = self.block(st, node.body, body)
        inner.rets.extend(body.rets)
        inner.brks.extend(body.brks)
        inner.conts.extend(body.conts)
        inner.exits.extend(body.exits)
        done = []
        for s, exc in self.merge_raises(body.raises):
            pend = [(s, exc)]
            for h in node.handlers:
                nxt = []
                for s2, x in pend:
                    names = self.handler_names(s2, h.type, inner)
                    caught = None
                    rest = x
                    for n in names:
                        m = self.matches(x, n)
                        if m is True:
                            caught = [x]
                            rest = None
                            break
                        if m is None:
                            caught = (caught or []) + [(n, False, frozenset(), mk("exc", n, False, x[3].args[2] if x[
                                3].op == "exc" else "?", x[3].args[3] if x[3].op == "exc" else None))]
                            rest = (rest[0], rest[1], rest[2] | {n}, rest[3])
                    for c in caught or ():
                        r = self.mon.caught(self, s2, c, h, node)
                        if r is not None:
                            s3 = r
                        else:
                            s3 = s2
                        done.extend(self.handler(s3, c, h, inner))
                    if rest is not None:
                        nxt.append((s2, rest))
                pend = nxt
            inner.raises.extend(pend)
        if node.orelse:
            for s in normal:
                done.extend(self.block(s, node.orelse, inner))
        else:
            done.extend(normal)
        done = self.dedupe(done)
        if not node.finalbody:
            return done
        # finally: run it for every way out
        res = []
        for s in done:
            res.extend(self.block(s, node.finalbody, out))
        for s, v in self.merge_vals(inner.rets):
            s = self.push(s, v)
            for s2 in self.block(s, node.finalbody, out):
                s3, v2 = self.pop(s2)
                out.rets.append((s3, v2))
        for s, x in self.merge_raises(inner.raises):
            s = self.push(s, x[3])
            s = s.copy()
            s.excs = s.excs + (x,)
            sub = self.newout()
            for s2 in self.block(s, node.finalbody, sub):
                s3, v2 = self.pop(self.unexc(s2))
                out.raises.append((s3, (x[0], x[1], x[2], v2)))
            self.merge_out(out, sub, lambda z: self.pop(self.unexc(z))[0])
        for s in self.dedupe(inner.brks):
            out.brks.extend(self.block(s, node.finalbody, out))
        for s in self.dedupe(inner.conts):
            out.conts.extend(self.block(s, node.finalbody, out))
        out.exits.extend(inner.exits)
        return res

    s_TryStar = s_Try

    def push(self, st, v):
        s = st.copy()
        s.pend = s.pend + (v,)
        return s

    def pop(self, st):
        v = st.pend[-1]
        s = st.copy()
        s.pend = s.pend[:-1]
        return s, v

    def unexc(self, st):
        s = st.copy()
        s.excs = s.excs[:-1]
        return s

    def merge_out(self, out, sub, f):
        out.rets.extend((f(s), v) for s, v in sub.rets)
        out.raises.extend((f(s), x) for s, x in sub.raises)
        out.brks.extend(f(s) for s in sub.brks)
        out.conts.extend(f(s) for s in sub.conts)
        out.exits.extend((s, k) for s, k in sub.exits)

    def handler(self, st, exc, h, out):
        s = st.copy()
        s.excs = s.excs + (exc,)
        if h.name:
            s = s.setvar(s.cur, h.name, exc[3])
        sub = self.newout()
        res = [self.unexc(s2) for s2 in self.block(s, h.body, sub)]
        if h.name:
            res = [s2.delvar(s2.cur, h.name) for s2 in res]
        self.merge_out(out, sub, self.unexc)
        return res

    # ----------------------------------------------------------------- with
    def s_With(self, st, node, out):
        return self.with_items(st, node.items, node.body, node, out)

    def with_items(self, st, items, body, node, out):
        if not items:
            return self.block(st, body, out)
        item = items[0]
        res = []
        for s, v in self.eval(st, item.context_expr, out):
            res.extend(self.with_one(s, v, item, items[1:], body, node, out))
        return res

    def run_body(self, st, item, value, rest, body, node, out):
        cur = [st]
        if item.optional_vars is not None:
            cur = self.assign(st, item.optional_vars, value, out)
        res = []
        for s in cur:
            res.extend(self.with_items(s, rest, body, node, out))
        return res

    def with_one(self, st, v, item, rest, body, node, out):
        o = self.obj(st, v) if v.op == "ref" else None
        cls = o.cls if o is not None else None
        if (o is not None and o.kind == "ext" and cls in models.LOCK_CLASSES) or self.mon.is_lock(self, st, v):
            res = []
            for s in self.acquire(st, v, node):
                sub = self.newout()
                for s2 in self.run_body(s, item, TRUE, rest, body, node, sub):
                    res.extend(self.release(s2, v, node))
                self.wrap_exit(out, sub, lambda z: self.release(z, v, node))
            return res
        if o is not None and o.kind == "gen" and cls == "cm":
            return self.with_gen(st, v, o, item, rest, body, node, out)
        if o is not None and o.kind == "inst":
            res = []
            for s, f in self.getattr_(st, v, "__enter__", node, out):
                for s2, x in self.call_value(s, f, (), (), node, out):
                    sub = self.newout()
                    normal = self.run_body(s2, item, x, rest, body, node, sub)

                    def leave(z, a=(NONE, NONE, NONE)):
                        r = []
                        for z2, g in self.getattr_(z, v, "__exit__", node, out):
                            r.extend(self.call_value(z2, g, a, (), node, out))
                        return r

                    for s3 in normal:
                        res.extend(z for z, _ in leave(s3))
                    for z, xc in self.merge_raises(sub.raises):
                        z = self.push(z, xc[3])
                        for z2, r in leave(z, (mk("attr", xc[3], "__class__"), xc[3], mk("attr", xc[3], "tb"))):
                            z2, ev = self.pop(z2)
                            for z3, b in self.split(z2, r):
                                if b:
                                    res.append(z3)
                                else:
                                    out.raises.append((z3, (xc[0], xc[1], xc[2], ev)))
                    sub.raises = []
                    self.wrap_exit(out, sub, lambda z: [y for y, _ in leave(z)])
            return res
        if is_call(v, "contextlib.suppress"):
            sub = self.newout()
            res = self.run_body(st, item, NONE, rest, body, node, sub)
            names = [a.args[0] for a in v.args[2] if a.op in ("ext", "class")]
            for s, x in sub.raises:
                m = [self.matches(x, n) for n in names]
                if True in m:
                    res.append(s)
                else:
                    if None in m:
                        res.append(s)
                    out.raises.append((s, (x[0], x[1], x[2] | frozenset(n for n, k in zip(names, m) if k is None),
                                           x[3])))
            sub.raises = []
            self.merge_out(out, sub, lambda z: z)
            return res
        if is_call(v, "contextlib.closing") and v.args[2]:
            target = v.args[2][0]

            def leave2(z):
                r = []
                for z2, g in self.getattr_(z, target, "close", node, out):
                    r.extend(y for y, _ in self.call_value(z2, g, (), (), node, out))
                return r

            sub = self.newout()
            res = []
            for s in self.run_body(st, item, target, rest, body, node, sub):
                res.extend(leave2(s))
            self.wrap_exit(out, sub, leave2)
            return res
        # an external context manager
        def leave3(z):
            return [y for y, _ in self.external(z, ".__exit__", v, (), (), node, out)]

        sub = self.newout()
        res = []
        for s in self.run_body(st, item, v, rest, body, node, sub):
            res.extend(leave3(s))
        self.wrap_exit(out, sub, leave3)
        return res

    def wrap_exit(self, out, sub, f):
        for s, v in self.merge_vals(sub.rets):
            for s2 in f(self.push(s, v)):
                s3, v2 = self.pop(s2)
                out.rets.append((s3, v2))
        for s, x in self.merge_raises(sub.raises):
            for s2 in f(self.push(s, x[3])):
                s3, v2 = self.pop(s2)
                out.raises.append((s3, (x[0], x[1], x[2], v2)))
        for s in self.dedupe(sub.brks):
            out.brks.extend(f(s))
        for s in self.dedupe(sub.conts):
            out.conts.extend(f(s))
        out.exits.extend(sub.exits)

    def with_gen(self, st, v, o, item, rest, body, node, out):
        """A @contextmanager generator of the repository: run it around the body."""
        f = o.items["f"]
        args = o.items["a"].args[0]
        kwargs = o.items["k"].args[0]
        fn = self.funcs[f.args[0]]
        caller = st.cur
        depth = len(st.pend)
        inner = self.newout()
        entries = self.enter(st, f, args, kwargs, node, out)
        if not entries:
            return []
        fid = entries[0].cur
        exits = []

        def hook(s, value, ynode, gout):
            s = s.with_cur(caller)
            sub = self.newout()
            cont = []
            for s2 in self.run_body(s, item, value, rest, body, node, sub):
                cont.append(self.push(s2, mk("norm")))
            cont.extend(self.push(s2, mk("pret", x)) for s2, x in self.merge_vals(sub.rets))
            cont.extend(self.push(s2, mk("pbrk")) for s2 in self.dedupe(sub.brks))
            cont.extend(self.push(s2, mk("pcont")) for s2 in self.dedupe(sub.conts))
            exits.extend(sub.exits)
            for s2, x in self.merge_raises(sub.raises):
                gout.raises.append((self.push(s2, mk("norm")).with_cur(fid), x))
            return [(s2.with_cur(fid), NONE) for s2 in cont]

        self.stats["functions"].add(f.args[0])
        self.yield_hooks.append(hook)
        try:
            for s in self.block(entries[0], fn.node.body, inner):
                inner.rets.append((s, NONE))
        finally:
            self.yield_hooks.pop()
        out.exits.extend(exits)
        out.exits.extend(inner.exits)
        res = []

        def cut(s):
            s = self.exit_frame(s, fid, caller, fn)
            tag = s.pend[depth] if len(s.pend) > depth else None
            if len(s.pend) > depth:
                s = s.copy()
                s.pend = s.pend[:depth]
            return s, tag

        for s, _ in inner.rets:
            s, tag = cut(s)
            if tag is None:
                self.raise_(s, out, "RuntimeError", True, node)
            elif tag.op == "norm":
                res.append(s)
            elif tag.op == "pret":
                out.rets.append((s, tag.args[0]))
            elif tag.op == "pbrk":
                out.brks.append(s)
            elif tag.op == "pcont":
                out.conts.append(s)
        for s, x in inner.raises:
            s, tag = cut(s)
            out.raises.append((s, x))
        return self.dedupe(res)

    # ---------------------------------------------------------------- loops
    def s_While(self, st, node, out):
        def step(s):
            ts, fs = self.branch(s, node.test, out)
            return ts, fs

        return self.loop(st, node, out, step)

    def s_For(self, st, node, out):
        res = []
        for s, it in self.eval(st, node.iter, out):
            items = self.iter_items(s, it)
            if items is not None and len(items) <= 80:
                res.extend(self.unrolled(s, node, items, out))
                continue
            g = self.as_generator(s, it)
            if g is not None:
                res.extend(self.for_gen(s, node, it, g, out))
                continue
            if it.op == "ref" and self.obj(s, it) is not None and self.obj(s, it).kind == "inst":
                r = self.for_inst(s, node, it, out)
                if r is not None:
                    res.extend(r)
                    continue
            if is_call(it, "iter") and len(it.args[2]) == 2:
                def step2(z, it=it):
                    ts, fs = [], []
                    for z2, v in self.call_value(z, it.args[2][0], (), (), node, out):
                        for z3, done in self.split(z2, self.mkeq(v, it.args[2][1])):
                            if done:
                                fs.append(z3)
                            else:
                                ts.extend(self.assign(z3, node.target, v, out))
                    return ts, fs

                res.extend(self.loop(s, node, out, step2))
                continue

            single = {}

            def step(z, it=it, single=single):
                it2 = it
                bad = self.iter_raises(z, it2)
                if bad:
                    self.raise_(z, out, bad if isinstance(bad, str) else "Exception", False, node, origin="iter")
                ts = []
                choices = self.elem_choices(z, it2, node)
                if len(choices) == 1 and choices[0][0].op == "elem":
                    single["el"] = (it2, choices[0][0])
                for el, z2 in choices:
                    z2 = self.mon.iterate(self, z2, it2, el, node)
                    if z2 is not None:
                        ts.extend(self.assign(z2, node.target, el, out))
                return ts, [z]

            res.extend(self.loop(s, node, out, step, single))
        return res

    def unrolled(self, st, node, items, out):
        cur = [st]
        done = []
        before = self.rounds.get(st.cur, "")
        try:
            for i, x in enumerate(items):
                nxt = []
                if i:
                    # what is made in each round is told apart
                    self.rounds[st.cur] = "%s#%d" % (before, i)
                for s in cur:
                    for s2 in self.assign(s, node.target, x, out):
                        sub = self.newout()
                        nxt.extend(self.block(s2, node.body, sub))
                        nxt.extend(sub.conts)
                        done.extend(sub.brks)
                        out.rets.extend(sub.rets)
                        out.raises.extend(sub.raises)
                        out.exits.extend(sub.exits)
                cur = self.dedupe(nxt)
        finally:
            self.rounds[st.cur] = before
        for s in cur:
            done.extend(self.block(s, node.orelse, out) if node.orelse else [s])
        return self.dedupe(done)

    def for_inst(self, st, node, it, out):
        o = self.obj(st, it)
        f = self.class_attr(o.cls, "__iter__")
        if f is None or f.op != "func":
            return None
        res = []
        for s, g in self.call_value(st, mk("bound", f, it), (), (), node, out):
            gg = self.as_generator(s, g)
            if gg is not None:
                res.extend(self.for_gen(s, node, g, gg, out))
            else:
                s2 = s.setvar(s.cur, "@it%d" % node.lineno, g)
                new = ast.copy_location(ast.For(target=node.target, iter=ast.copy_location(ast.Name(
                    "@it%d" % node.lineno, ast.Load()), node), body=node.body, orelse=node.orelse), node)
                res.extend(self.s_For(s2, new, out))
        return res

    def for_gen(self, st, node, it, g, out):
        """for over a generator of the repository: run the generator, the body at each yield."""
        f, args, kwargs = g
        fn = self.funcs[f.args[0]]
        caller = st.cur
        inner = self.newout()
        entries = self.enter(st, f, args, kwargs, node, out)
        if not entries:
            return []
        fid = entries[0].cur
        sub = self.newout()
        broke = []

        def hook(s, value, ynode, gout):
            s = s.with_cur(caller)
            body = self.newout()
            cont = []
            for s2 in self.assign(s, node.target, value, sub):
                cont.extend(self.block(s2, node.body, body))
            cont.extend(body.conts)
            broke.extend(body.brks)
            sub.rets.extend(body.rets)
            sub.raises.extend(body.raises)
            sub.exits.extend(body.exits)
            return [(s2.with_cur(fid), NONE) for s2 in self.dedupe(cont)]

        self.stats["functions"].add(f.args[0])
        self.yield_hooks.append(hook)
        try:
            for s in self.block(entries[0], fn.node.body, inner):
                inner.rets.append((s, NONE))
        finally:
            self.yield_hooks.pop()
        out.exits.extend(inner.exits)
        out.exits.extend(sub.exits)

        def drop(s):
            return self.exit_frame(s, fid, caller, fn)

        res = [drop(s) for s in broke]
        out.rets.extend((drop(s), v) for s, v in sub.rets)
        out.raises.extend((drop(s), x) for s, x in sub.raises)
        out.raises.extend((drop(s), x) for s, x in inner.raises)
        for s, _ in inner.rets:
            s = drop(s)
            res.extend(self.block(s, node.orelse, out) if node.orelse else [s])
        return self.dedupe(res)

    def loop(self, st, node, out, step, single=None):
        head = "%s@%s" % (st.cur, self.site(st, node))
        seen = {}
        values = {}
        work = [st]
        exits = []
        fin = []
        rounds = 0
        common_el = None
        counters = self.counters(st, node)
        while work:
            s = work.pop(0)
            rounds += 1
            if rounds > 2500:
                raise AnalysisError("loop does not converge at %s" % self.loc(s, node))
            s = self.gc(self.drop_dead(s, node), [])
            s = self.widen(s, head, values, st, counters)
            if rounds > 300:
                s = self.coarsen(s, st, rounds > 900)
            k = s.key()
            if k in seen:
                continue
            nf = s.key(facts=False)
            group = seen.setdefault(("n", nf), [])
            seen[k] = True
            if len(group) >= 24:
                # too many variants of one configuration: keep common facts only
                common = dict(group[0].facts)
                for other in group[1:] + [s]:
                    common = {a: b for a, b in common.items() if other.facts.get(a) == b}
                s = s.copy()
                s.facts = common
                k = s.key()
                if k in seen:
                    continue
                seen[k] = True
                group[:] = [s]
            else:
                group.append(s)
            ts, fs = step(s)
            exits.extend(fs)
            sub = self.newout()
            nxt = []
            for s2 in self.dedupe(ts):
                nxt.extend(self.block(s2, node.body, sub))
            nxt.extend(sub.conts)
            fin.extend(sub.brks)
            out.rets.extend(sub.rets)
            out.raises.extend(sub.raises)
            out.exits.extend(sub.exits)
            nxt = self.dedupe(nxt)
            if single and "el" in single:
                it2, el = single["el"]
                okay = el.atoms | it2.atoms
                for x in nxt:
                    fs2 = {k: v for k, v in x.facts.items() if el in k.atoms and k.atoms <= okay and k.op != "forall"
                           and not (k.op == "cmp" and k.args[0] == "in" and k.args[2] is it2)}
                    common_el = fs2 if common_el is None else {k: v for k, v in common_el.items() if fs2.get(k) is v}
            work.extend(self.mon.backedge(self, x, node) for x in nxt)
            work = [x for x in work if x is not None]
        for s in self.dedupe(exits):
            if common_el:
                s = self.add_forall(s, single["el"][0], single["el"][1], list(common_el.items()))
            fin.extend(self.block(s, node.orelse, out) if node.orelse else [s])
        out.raises[:] = self.merge_raises(out.raises)
        return self.dedupe(fin)

    def drop_dead(self, st, node):
        """Without the local variables that are assigned anew before they are read again."""
        fr = st.frames[st.cur]
        fn = self.funcs.get(fr.get("@func"))
        if fn is None:
            return st
        live = live_heads(fn.node).get(id(node))
        if live is None:
            return st
        dead = [n for n in fr if not n.startswith("@") and n not in live and n in fn.assigned]
        if not dead:
            return st
        s = st.copy()
        s.frames = dict(s.frames)
        s.frames[s.cur] = {n: v for n, v in fr.items() if n not in dead}
        return s

    def coarsen(self, s, st, more):
        """A loop with very many states: forget what dictionaries changed in it hold (then all facts learnt in it)."""
        for addr, o in list(s.heap.items()):
            if o.kind == "dict" and o.items and (addr not in st.heap or st.heap[addr].items != o.items):
                s = s.setobj(addr, o.with_(items={}, rest=True, taint=o.taint | frozenset(
                    v for v in o.items.values() if isinstance(v, T))))
        if more:
            s = s.copy()
            s.facts = {k: v for k, v in s.facts.items() if st.facts.get(k) is v}
        return s

    def counters(self, st, node):
        """Local variables that index a sequence that is known in full: {(frame, name): its length}."""
        res = {}
        for n in ast.walk(node):
            if not (isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name)):
                continue
            v = None
            if isinstance(n.value, ast.Name):
                v = st.frames[st.cur].get(n.value.id)
                if v is None:
                    v = self.module_env(st, st.frames[st.cur]["@mod"]).get(n.value.id)
            if not isinstance(v, T):
                continue
            o = self.obj(st, v) if v.op == "ref" else None
            size = len(v.args[0]) if v.op == "tuple" else len(o.items) if o is not None and o.kind == "list" and \
                o.items is not None else len(cval(v)) if is_const(v) and isinstance(cval(v), tuple) else None
            if size is not None and size <= 16:
                res[("v", st.cur, n.slice.id)] = size
        return res

    def widen(self, st, head, values, entry=None, counters=None):
        """Replace locations that keep changing at this loop head by a phi."""
        for fid, fr in list(st.frames.items()):
            for name, v in list(fr.items()):
                if not isinstance(v, T):
                    continue
                n = (counters or {}).get(("v", fid, name))
                if n is not None and is_const(v) and type(cval(v)) is int and 0 <= cval(v) <= n:
                    continue
                st = self._widen1(st, head, values, ("v", fid, name), v)
        for addr, o in list(st.heap.items()):
            if o.kind == "inst" or o.kind == "ext" or o.kind == "dict":
                for name, v in list(o.items.items()):
                    if isinstance(v, T):
                        st = self._widen1(st, head, values, ("h", addr, name), v)
                if o.kind == "dict" and len(st.heap[addr].items) > 40:
                    st = st.setobj(addr, st.heap[addr].with_(items={}, rest=True))
            elif o.items is not None and o.kind in ("list", "set"):
                if entry is not None and o.kind == "list" and part_of(o.items, entry.heap.get(addr)):
                    # being used up
                    continue
                vs = values.setdefault(("l", addr), set())
                vs.add(o.items)
                if len(vs) > WIDEN + 1:
                    st = st.setobj(addr, o.with_(items=None, taint=o.taint | frozenset(o.items)))
            elif o.items is None and o.kind in ("list", "set"):
                vs = values.setdefault(("t", addr), set())
                vs.add(o.taint)
                if len(vs) > WIDEN + 3:
                    atoms = frozenset(mk("some", a) for t in o.taint for a in t.atoms)
                    st = st.setobj(addr, o.with_(taint=atoms))
        return st

    def _widen1(self, st, head, values, loc, v):
        if isinstance(loc[2], T):
            name = repr(loc[2])
        else:
            name = loc[2]
        if v.op in ("ref", "func", "class", "bound", "mod"):
            # references: no widening, they are finite (allocation sites)
            return st
        p = mk("phi", head, "%s.%s" % (loc[1], name))
        if v is p:
            return st
        vs = values.setdefault(loc, [])
        if v not in vs:
            vs.append(v)
        if len(vs) <= WIDEN:
            return st
        alts = self.phi_alts.setdefault(p, set())
        alts.update(x for x in vs)
        # the previous iteration's value lives on under another name
        st = self.rename_atom(st, p, mk("phi", head, "%s.%s'" % (loc[1], name)))
        if loc[0] == "v":
            return self.mon.widened(self, st.setvar(loc[1], loc[2], p), v, p)
        return st.setobj(loc[1], st.heap[loc[1]].set_item(loc[2], p))

    # ------------------------------------------------- definitions, imports
    def make_func(self, st, node, out):
        mod = st.frames[st.cur]["@mod"]
        fr = st.frames[st.cur]
        outer = fr.get("@func")
        cls = fr.get("@class")
        name = getattr(node, "name", "<lambda@%d:%d>" % (node.lineno, node.col_offset))
        if cls:
            qual = "%s.%s" % (cls, name)
        elif outer and outer != "<comp>":
            qual = "%s.<locals>.%s" % (outer, name)
        else:
            qual = "%s:%s" % (mod, name)
        if qual in self.funcs and self.funcs[qual].node is not node and outer is None:
            prev = self.funcs[qual].node
            if prev.lineno != node.lineno:
                qual = "%s#%d" % (qual, node.lineno)
        if qual not in self.funcs or self.funcs[qual].node is not node:
            self.funcs[qual] = Func(qual, node, mod, cls)
        a = node.args
        closure = None
        if st.cur and not st.cur.startswith("mod:") and not cls:
            closure = st.cur
        elif cls and fr.get("@parent") and not fr["@parent"].startswith("mod:"):
            closure = fr["@parent"]
        res = []
        for s, vs in self.eval_many(st, list(a.defaults) + [d for d in a.kw_defaults if d is not None], out):
            nd = len(a.defaults)
            kw = {}
            i = nd
            for arg, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    kw[arg.arg] = vs[i]
                    i += 1
            self.defaults[qual] = (vs[:nd], kw)
            if closure is None:
                self.lasting(s, vs)
            res.append((s, mk("func", qual, closure)))
        return res

    def lasting(self, st, vs):
        """What these values refer to lasts as long as the program."""
        work = [a for v in vs for a in v.atoms if a.op == "ref"]
        while work:
            a = work.pop()
            o = st.heap.get(a.args[0])
            if o is not None and a.args[0] not in self.base_heap:
                self.base_heap[a.args[0]] = o
                work += [x for t in o.terms() for x in t.atoms if x.op == "ref"]

    def s_FunctionDef(self, st, node, out):
        res = []
        for s, f in self.make_func(st, node, out):
            cur = [(s, f)]
            for d in reversed(node.decorator_list):
                nxt = []
                for s2, v in cur:
                    if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter", "getter") and isinstance(
                            d.value, ast.Name):
                        for s3, p in self.eval(s2, d.value, out):
                            if p.op == "prop":
                                nxt.append((s3, mk("prop", p.args[0], v if d.attr == "setter" else p.args[1])
                                            if d.attr != "getter" else mk("prop", v, p.args[1])))
                            else:
                                nxt.append((s3, v))
                        continue
                    for s3, dv in self.eval(s2, d, out):
                        nxt.extend(self.call_value(s3, dv, (v,), (), d, out))
                cur = nxt
            res.extend(s2.setvar(self.scope_of(s2, node.name), node.name, v) for s2, v in cur)
        return res

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, st, node, out):
        fr = st.frames[st.cur]
        mod = fr["@mod"]
        outer = fr.get("@func")
        pcls = fr.get("@class")
        if pcls:
            cid = "%s.%s" % (pcls, node.name)
        elif outer:
            cid = "%s.<locals>.%s" % (outer, node.name)
        else:
            cid = "%s:%s" % (mod, node.name)
        c = Class(cid, node.name, mod, node)
        s = st
        for b in node.bases:
            if isinstance(b, ast.Call) and isinstance(b.func, (ast.Name, ast.Attribute)) and (
                    getattr(b.func, "id", None) or getattr(b.func, "attr", None)) in ("with_metaclass",):
                r = self.eval_many(s, b.args, out)
                s, vs = r[0]
                c.meta = vs[0]
                c.bases.extend(vs[1:])
            else:
                r = self.eval(s, b, out)
                if not r:
                    return []
                s, v = r[0]
                c.bases.append(v)
        for k in node.keywords:
            r = self.eval(s, k.value, out)
            if k.arg == "metaclass" and r:
                c.meta = r[0][1]
        self.classes[cid] = c
        self._mro.clear()
        self._anc.clear()
        caller = s.cur
        fid = "class:" + cid
        s2 = s.copy()
        s2.frames = dict(s.frames)
        s2.frames[fid] = {"@func": None, "@mod": mod, "@class": cid, "@parent": caller}
        s2.cur = fid
        sub = self.newout()
        ends = self.block(s2, node.body, sub)
        out.raises.extend((z.with_cur(caller), x) for z, x in sub.raises)
        if not ends:
            return []
        attrs = {}
        for name in ends[0].frames[fid]:
            if name.startswith("@"):
                continue
            vals = []
            for z in ends:
                v = z.frames[fid].get(name)
                if v is not None and v not in vals:
                    vals.append(v)
            attrs[name] = vals[0] if len(vals) == 1 else self.join_vals(vals, "class:" + cid, name)
        order = [n for n in ends[0].frames[fid] if not n.startswith("@")]
        if self.is_enum_bases(c):
            c.is_enum = True
            for n in order:
                v = attrs[n]
                if v.op in ("func", "prop", "cm", "sm", "class") or n.startswith("_"):
                    continue
                alias = None
                for m in c.members:
                    if attrs[m].op == "enum" and attrs[m].args[2] is v:
                        alias = attrs[m]
                attrs[n] = alias or mk("enum", cid, n, v)
                if alias is None:
                    c.members.append(n)
        c.attrs = attrs
        s3 = self.leave(ends[0], fid, caller)
        cur = [(s3, mk("class", cid))]
        for d in reversed(node.decorator_list):
            nxt = []
            for z, v in cur:
                for z2, dv in self.eval(z, d, out):
                    for z3, r in self.call_value(z2, dv, (v,), (), d, out):
                        # decorators of classes are taken to return the class
                        nxt.append((z3, r if r.op == "class" else v))
            cur = nxt
        return [z.setvar(self.scope_of(z, node.name), node.name, v) for z, v in cur]

    def s_Import(self, st, node, out):
        s = st
        for al in node.names:
            v = self.import_name(s, al.name, out, node)
            if v is None:
                return []
            if al.asname:
                s = s.setvar(self.scope_of(s, al.asname), al.asname, v)
            else:
                top = al.name.split(".")[0]
                s = s.setvar(self.scope_of(s, top), top, self.import_name(s, top, out, node))
        return [s]

    def import_name(self, st, name, out, node):
        top = name.split(".")[0]
        if name in self.mods:
            self.load_module(name)
            return mk("mod", name)
        if top in MISSING_MODULES:
            self.raise_(st, out, "ImportError", True, node)
            return None
        return ext(name)

    def s_ImportFrom(self, st, node, out):
        mod = st.frames[st.cur]["@mod"]
        m = self.mods[mod]
        base = node.module or ""
        if node.level:
            pkg = mod if m.path.endswith("__init__.py") else mod.rpartition(".")[0]
            for _ in range(node.level - 1):
                pkg = pkg.rpartition(".")[0]
            base = pkg + ("." + base if base else "")
        if base == "__future__":
            return [st]
        s = st
        if base in self.mods:
            self.load_module(base)
            for al in node.names:
                env = self.modenv.get(base, {})
                live = self.loading.get(base)
                if al.name in env:
                    v = env[al.name]
                elif live is not None and al.name in live:
                    v = live[al.name]
                elif base + "." + al.name in self.mods:
                    self.load_module(base + "." + al.name)
                    v = mk("mod", base + "." + al.name)
                elif al.name == "*":
                    for n, x in env.items():
                        if not n.startswith("_"):
                            s = s.setvar(s.cur, n, x)
                    continue
                else:
                    self.raise_(st, out, "ImportError", True, node)
                    return []
                n = al.asname or al.name
                s = s.setvar(self.scope_of(s, n), n, v)
            return [s]
        if base.split(".")[0] in MISSING_MODULES or (base == "urllib" and any(
                al.name in ("urlencode", "quote", "urlopen", "unquote") for al in node.names)):
            self.raise_(st, out, "ImportError", True, node)
            return []
        if base == "itertools" and any(al.name.startswith("i") and al.name in ("izip_longest", "izip", "imap")
                                       for al in node.names):
            self.raise_(st, out, "ImportError", True, node)
            return []
        for al in node.names:
            for s2, v in self.getattr_(s, ext(base), al.name, node, out):
                n = al.asname or al.name
                s = s2.setvar(self.scope_of(s2, n), n, v)
        return [s]
