"""Which local variables may still be read when a loop goes round (a backward dataflow over the syntax tree)."""

import ast

_cache = {}
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def heads(fn):
    """{id of loop: names live at its head}, or None if names may be read in other ways."""
    k = id(fn)
    if k not in _cache:
        _cache[k] = (fn, Liveness(fn).heads if not isinstance(fn, ast.Lambda) else {})
    return _cache[k][1]


def reads(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))}


class Liveness(object):

    def __init__(self, fn):
        self.heads = {}
        self.always = set()
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, SCOPES):
                self.always |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.always |= set(n.names)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "eval", "exec"):
                self.always |= {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)}
        e = frozenset()
        self.block(fn.body, e, e, e, e, e)
        self.heads = {k: v | self.always for k, v in self.heads.items()}

    # out: live after; brk, cont, exc, ret: live where these lead
    def block(self, body, out, brk, cont, exc, ret):
        for s in reversed(body):
            out = self.stmt(s, out, brk, cont, exc, ret)
        return out

    def target(self, t, out):
        """Live before an assignment to t (whose value is accounted for separately)."""
        if isinstance(t, ast.Name):
            return out - {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                out = self.target(x, out)
            return out
        if isinstance(t, ast.Starred):
            return self.target(t.value, out)
        return out | reads(t)

    def stmt(self, s, out, brk, cont, exc, ret):
        if isinstance(s, ast.Return):
            return (reads(s) if s.value is not None else frozenset()) | ret | exc
        if isinstance(s, ast.Raise):
            return frozenset(reads(s)) | exc
        if isinstance(s, ast.Break):
            return brk
        if isinstance(s, ast.Continue):
            return cont
        if isinstance(s, ast.Assign):
            for t in s.targets:
                out = self.target(t, out)
            return out | reads(s.value) | exc
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return out
            return self.target(s.target, out) | reads(s.value) | exc
        if isinstance(s, ast.AugAssign):
            r = reads(s.value) | reads(s.target)
            if isinstance(s.target, ast.Name):
                r |= {s.target.id}
            return out | r | exc
        if isinstance(s, ast.If):
            return self.block(s.body, out, brk, cont, exc, ret) | self.block(s.orelse, out, brk, cont, exc, ret) | \
                reads(s.test) | exc
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            return self.loop(s, out, brk, cont, exc, ret)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            inner = out | exc
            # leaving the block runs code of the managers only
            r = self.block(s.body, out, brk, cont, exc | out, ret)
            for i in reversed(s.items):
                if i.optional_vars is not None:
                    r = self.target(i.optional_vars, r)
                r = r | reads(i.context_expr)
            return r | exc
        if isinstance(s, ast.Try):
            o, b, c, x, r = out, brk, cont, exc, ret
            if s.finalbody:
                o, b, c, x, r = [self.block(s.finalbody, v, brk, cont, exc, ret) for v in (out, brk, cont, exc, ret)]
            hs = frozenset()
            for h in s.handlers:
                v = self.block(h.body, o, b, c, x, r)
                if h.name:
                    v = v - {h.name}
                hs |= v | (reads(h.type) if h.type is not None else frozenset())
            o2 = self.block(s.orelse, o, b, c, x, r) if s.orelse else o
            return self.block(s.body, o2, b, c, hs | x, r) | hs | x
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return (out - {s.name}) | reads(s) | exc
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
            return out
        if isinstance(s, ast.Delete):
            return out | reads(s) | exc
        return out | frozenset(reads(s)) | exc

    def loop(self, s, out, brk, cont, exc, ret):
        after = self.block(s.orelse, out, brk, cont, exc, ret) if s.orelse else out
        head = frozenset()
        while True:
            v = self.block(s.body, head, out, head, exc, ret)
            if isinstance(s, ast.While):
                new = v | reads(s.test) | after | exc
            else:
                # what is iterated over lives as long as the loop
                new = self.target(s.target, v) | after | exc | reads(s.iter)
            if new <= head:
                break
            head = head | new
        self.heads[id(s)] = self.heads.get(id(s), frozenset()) | head
        if isinstance(s, ast.While):
            return head
        return head | reads(s.iter) | exc
