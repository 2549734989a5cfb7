"""Evaluating expressions over abstract values."""

import ast

from .terms import T, mk, const, is_const, cval, is_call, ext, NONE, TRUE, FALSE, ref
from .state import HObj
from .program import AnalysisError
from . import models

CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitXor: "^", ast.BitAnd: "&", ast.MatMult: "@"}
COMMUTES = ("*", "|", "&", "^")


def mkfmt(parts):
    """Normal form of string building: adjacent constants merged."""
    out = []
    for p in parts:
        if p.op == "fmt":
            sub = list(p.args[0])
        else:
            sub = [p]
        for q in sub:
            if is_const(q) and isinstance(cval(q), (str, bytes)):
                if len(cval(q)) == 0:
                    continue
                if out and is_const(out[-1]) and type(cval(out[-1])) is type(cval(q)):
                    out[-1] = const(cval(out[-1]) + cval(q))
                    continue
            out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and is_const(out[0]) and isinstance(cval(out[0]), (str, bytes)):
        return out[0]
    return mk("fmt", tuple(out))


class NeedsLoop(Exception):
    """A comprehension that has to be run as a loop."""


class Exprs(object):

    def loc(self, st, node):
        m = st.frames.get(st.cur, {}).get("@mod")
        mod = self.mods.get(m)
        return "%s:%d" % (mod.rel if mod else m, getattr(node, "lineno", 0))

    def site(self, st, node):
        return "%s:%d:%d" % (st.frames.get(st.cur, {}).get("@mod"), getattr(node, "lineno", 0),
                             getattr(node, "col_offset", 0))

    def uid(self, st, node):
        return "%s@%s%s" % (st.cur, self.site(st, node), self.rounds.get(st.cur, ""))

    # -------------------------------------------------------------- lookup
    def lookup(self, st, name, node, out):
        f = st.frames[st.cur]
        fn = self.funcs.get(f.get("@func"))
        if fn is None or name not in fn.globals:
            fid = st.cur
            while fid is not None:
                fr = st.frames.get(fid)
                if fr is None:
                    break
                if name in fr:
                    v = fr[name]
                    if isinstance(v, T):
                        return [(st, v)]
                ffn = self.funcs.get(fr.get("@func"))
                if ffn is not None and name in ffn.assigned and fid == st.cur and not fr.get("@class"):
                    # local that is not bound on this path
                    self.raise_(st, out, "UnboundLocalError", True, node)
                    return []
                fid = fr.get("@parent")
        m = f["@mod"]
        over = st.frames.get("mod:" + m)
        if over is not None and name in over:
            return [(st, over[name])]
        env = self.modenv.get(m, {})
        if name in env:
            return [(st, env[name])]
        if name in ("None", "True", "False"):
            return [(st, const({"None": None, "True": True, "False": False}[name]))]
        if name == "__name__":
            return [(st, const(m))]
        if name == "__file__":
            return [(st, const(m.replace(".", "/") + ".py"))]
        if name == "Ellipsis":
            return [(st, const(Ellipsis))]
        import builtins

        if hasattr(builtins, name) or name in ("unicode", "long", "xrange", "basestring", "unichr", "raw_input"):
            return [(st, ext(models_alias(name)))]
        self.raise_(st, out, "NameError", True, node)
        return []

    # ---------------------------------------------------------------- eval
    def eval(self, st, e, out):
        """[(state, value)]; exceptions go to out.raises."""
        m = getattr(self, "e_" + e.__class__.__name__, None)
        if m is None:
            raise AnalysisError("unsupported expression %s at %s" % (e.__class__.__name__, self.loc(st, e)))
        return m(st, e, out)

    def eval_many(self, st, es, out):
        acc = [(st, ())]
        for e in es:
            nxt = []
            for s, vs in acc:
                if e is None:
                    nxt.append((s, vs + (None,)))
                    continue
                for s2, v in self.eval(s, e, out):
                    nxt.append((s2, vs + (v,)))
            acc = nxt
        return acc

    def e_Constant(self, st, e, out):
        return [(st, const(e.value))]

    def e_Name(self, st, e, out):
        return self.lookup(st, e.id, e, out)

    def e_Tuple(self, st, e, out):
        res = []
        stars = [isinstance(x, ast.Starred) for x in e.elts]
        for s, vs in self.eval_many(st, [x.value if isinstance(x, ast.Starred) else x for x in e.elts], out):
            items, ok = [], True
            for star, v in zip(stars, vs):
                if star:
                    k = self.known_items(s, v)
                    if k is None:
                        ok = False
                    else:
                        items.extend(k)
                else:
                    items.append(v)
            if ok:
                res.append((s, mk("tuple", tuple(items))))
            else:
                res.append((s, mk("call", "tuple*", None, tuple(vs), (), None)))
        return res

    def e_List(self, st, e, out):
        res = []
        for s, t in self.e_Tuple(st, e, out):
            if t.op == "tuple":
                res.append(self.new(s, HObj("list", items=t.args[0]), e))
            else:
                res.append(self.new(s, HObj("list", items=None, taint=frozenset(t.args[2])), e))
        return res

    def e_Set(self, st, e, out):
        return [self.new(s, HObj("set", items=vs), e) for s, vs in self.eval_many(st, e.elts, out)]

    def e_Dict(self, st, e, out):
        res = []
        for s, vs in self.eval_many(st, [x for k, v in zip(e.keys, e.values) for x in (k, v)], out):
            items, rest, taint = {}, False, frozenset()
            for k, v in zip(vs[::2], vs[1::2]):
                if k is None:
                    o = self.obj(s, v) if v.op == "ref" else None
                    if o is not None and o.kind == "dict":
                        items.update(o.items)
                        rest = rest or o.rest
                        taint = taint | o.taint
                    else:
                        rest = True
                        taint = taint | {v}
                else:
                    items[k] = v
            res.append(self.new(s, HObj("dict", items=items, rest=rest, taint=taint), e))
        return res

    def e_JoinedStr(self, st, e, out):
        es = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
        res = []
        for s, vs in self.eval_many(st, es, out):
            parts = []
            for x, v in zip(e.values, vs):
                if isinstance(x, ast.FormattedValue):
                    parts.append(self.strof(s, v, "r" if x.conversion == 114 else "s"))
                else:
                    parts.append(v)
            res.append((s, mkfmt(parts)))
        return res

    def strof(self, st, v, conv="s"):
        if conv == "r":
            return mk("call", "repr", None, (v,), (), None)
        if is_const(v) and isinstance(cval(v), (str, int)) and not isinstance(cval(v), bool):
            return const(str(cval(v)))
        return v

    def e_FormattedValue(self, st, e, out):
        return self.eval(st, e.value, out)

    def e_BoolOp(self, st, e, out):
        is_and = isinstance(e.op, ast.And)
        res = []
        cur = [st]
        for i, x in enumerate(e.values):
            nxt = []
            for s in cur:
                for s2, v in self.eval(s, x, out):
                    if i == len(e.values) - 1:
                        res.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v, x, out):
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            vv = v
                            if v.op in ("cmp", "not") or self.typeof(s3, v) == "bool":
                                vv = const(b)
                            res.append((s3, vv))
            cur = nxt
        return res

    def e_UnaryOp(self, st, e, out):
        res = []
        for s, v in self.eval(st, e.operand, out):
            if isinstance(e.op, ast.Not):
                if self.has_bool(s, v):
                    res.extend((s2, const(not b)) for s2, b in self.truth(s, v, e, out))
                    continue
                d = self.decide(s, v)
                res.append((s, const(not d) if d is not None else self.mknot(v)))
            elif is_const(v) and isinstance(cval(v), (int, float)):
                x = cval(v)
                x = -x if isinstance(e.op, ast.USub) else (~x if isinstance(e.op, ast.Invert) else x)
                res.append((s, const(x)))
            else:
                res.append((s, mk("bin", "neg" if isinstance(e.op, ast.USub) else e.op.__class__.__name__, v, NONE)))
        return res

    def has_bool(self, st, v):
        if v.op != "ref":
            return False
        o = self.obj(st, v)
        return o is not None and o.kind == "inst" and (
            self.class_attr(o.cls, "__bool__") is not None or self.class_attr(o.cls, "__len__") is not None)

    def truth(self, st, v, node, out):
        """[(state, bool)], calling __bool__ of repository classes."""
        if self.has_bool(st, v):
            o = self.obj(st, v)
            name = "__bool__" if self.class_attr(o.cls, "__bool__") is not None else "__len__"
            res = []
            for s, f in self.getattr_(st, v, name, node, out):
                for s2, r in self.call_value(s, f, (), (), node, out):
                    res.extend(self.split(s2, r))
            return res
        return self.split(st, v)

    def e_Compare(self, st, e, out):
        res = []
        cur = [(st, None, v) for st, v in self.eval(st, e.left, out)]
        # [(state, accumulated conjunct terms, left value)]
        cur = [(s, (), v) for s, _, v in cur]
        for op, right in zip(e.ops, e.comparators):
            nxt = []
            for s, acc, lv in cur:
                for s2, rv in self.eval(s, right, out):
                    for s3, t in self.compare(s2, CMP[op.__class__], lv, rv, e, out):
                        nxt.append((s3, acc + (t,), rv))
            cur = nxt
        for s, acc, _ in cur:
            if len(acc) == 1:
                res.append((s, acc[0]))
            else:
                work = [s]
                for i, t in enumerate(acc):
                    nw = []
                    for w in work:
                        for w2, b in self.split(w, t):
                            if not b:
                                res.append((w2, FALSE))
                            else:
                                nw.append(w2)
                    work = nw
                res.extend((w, TRUE) for w in work)
        return res

    def compare(self, st, op, a, b, node, out):
        if op in ("in", "not in"):
            if b.op == "ref":
                o = self.obj(st, b)
                if o is not None and o.kind == "inst":
                    f = self.class_attr(o.cls, "__contains__")
                    if f is not None:
                        res = []
                        for s, m in self.getattr_(st, b, "__contains__", node, out):
                            for s2, r in self.call_value(s, m, (a,), (), node, out):
                                res.append((s2, r if op == "in" else self.mknot(r)))
                        return res
                if o is not None and o.kind in ("list", "set") and o.items is not None:
                    b = mk("tuple", o.items)
                elif o is not None and o.kind == "dict" and not o.rest and all(is_const(k) for k in o.items) \
                        and not is_const(a) and a.op != "enum":
                    b = mk("tuple", tuple(sorted(o.items, key=repr)))
        if a.op == "ref" or b.op == "ref":
            if op in ("==", "!="):
                # equality of containers with known contents
                ka = self.known_items(st, a) if a.op in ("ref", "tuple") else None
                kb = self.known_items(st, b) if b.op in ("ref", "tuple") else None
                if ka is not None and kb is not None and self.typeof(st, a) == self.typeof(st, b) \
                        and self.typeof(st, a) in ("list", "tuple"):
                    if len(ka) != len(kb):
                        return [(st, const(op == "!="))]
                    if all(x is y for x, y in zip(ka, kb)):
                        return [(st, const(op == "=="))]
        t = self.mkcmp(op, a, b)
        d = self.decide(st, t)
        if d is not None:
            return [(st, const(d))]
        return [(st, t)]

    def e_IfExp(self, st, e, out):
        res = []
        ts, fs = self.branch(st, e.test, out)
        for s in ts:
            res.extend(self.eval(s, e.body, out))
        for s in fs:
            res.extend(self.eval(s, e.orelse, out))
        return res

    def branch(self, st, e, out):
        """(states where e is true, states where e is false)"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            ts, fs, cur = [], [], [st]
            for i, x in enumerate(e.values):
                nxt = []
                for s in cur:
                    t, f = self.branch(s, x, out)
                    if is_and:
                        fs.extend(f)
                        nxt.extend(t)
                    else:
                        ts.extend(t)
                        nxt.extend(f)
                cur = nxt
            if is_and:
                ts = cur
            else:
                fs = cur
            return ts, fs
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.branch(st, e.operand, out)
            return f, t
        ts, fs = [], []
        for s, v in self.eval(st, e, out):
            for s2, b in self.truth(s, v, e, out):
                (ts if b else fs).append(s2)
        return ts, fs

    def e_BinOp(self, st, e, out):
        res = []
        for s, (a, b) in self.eval_many(st, [e.left, e.right], out):
            res.extend(self.binop(s, BIN[e.op.__class__], a, b, e, out))
        return res

    def binop(self, st, op, a, b, node, out):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                small = not (op in ("**", "<<") and (abs(y) > 100)) and not (
                    op == "*" and isinstance(x, (str, bytes)) and y > 10000) and not (
                    op == "*" and isinstance(y, (str, bytes)) and x > 10000)
                if small:
                    import operator as o

                    fn = {"+": o.add, "-": o.sub, "*": o.mul, "/": o.truediv, "//": o.floordiv, "%": o.mod,
                          "**": o.pow, "<<": o.lshift, ">>": o.rshift, "|": o.or_, "&": o.and_, "^": o.xor}[op]
                    return [(st, const(fn(x, y)))]
            except Exception:
                pass
        ta, tb = self.typeof(st, a), self.typeof(st, b)
        if op == "+":
            if a.op == "tuple" and b.op == "tuple":
                return [(st, mk("tuple", a.args[0] + b.args[0]))]
            if ta == "list" or tb == "list":
                ka, kb = self.known_items(st, a), self.known_items(st, b)
                if ka is not None and kb is not None:
                    return [self.new(st, HObj("list", items=tuple(ka) + tuple(kb)), node)]
                return [self.new(st, HObj("list", items=None, taint=frozenset([a, b])), node)]
            if ta in ("str", "bytes") or tb in ("str", "bytes"):
                return [(st, mkfmt([a, b]))]
        if op == "%" and ta in ("str", "bytes"):
            return [(st, self.percent(st, a, b))]
        if op == "/" and (not is_const(b) or cval(b) == 0):
            d = self.decide(st, b)
            if d is None and (self.decide(st, self.mkeq(b, const(0))) is False
                              or self.decide(st, mk("cmp", "lt", const(0), b)) is True):
                d = True
            if d is not True and self.mon.division_raises(self, st, b):
                self.raise_(st.setfact(b, False), out, "ZeroDivisionError", True, node)
                st = st.setfact(b, True)
        if op in COMMUTES and is_const(a) and not is_const(b):
            a, b = b, a
        elif op in ("*", "&", "|", "^") and not is_const(b) and not is_const(a) and repr(a) > repr(b):
            a, b = b, a
        if op == "&" and is_const(b) and cval(b) == 0:
            return [(st, const(0))]
        if op == "|" and is_const(b) and a.op == "bin" and a.args[0] == "|" and is_const(a.args[2]):
            return [(st, mk("bin", "|", a.args[1], const(a.args[2].args[0][1] | cval(b))))]
        if op in ("+", "-") and is_const(b) and cval(b) == 0 and ta in ("int", "float"):
            return [(st, a)]
        return [(st, mk("bin", op, a, b))]

    def percent(self, st, a, b):
        args = None
        if b.op == "tuple":
            args = list(b.args[0])
        elif b.op != "ref" or (self.obj(st, b) is not None and self.obj(st, b).kind != "dict"):
            args = [b]
        if is_const(a) and args is not None:
            f = cval(a)
            isb = isinstance(f, bytes)
            if isb:
                f = f.decode("latin-1")
            parts, i, buf = [], 0, ""
            import re

            pos = 0
            ok = True
            for m in re.finditer(r"%([-#0 +]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])", f):
                parts.append(const(f[pos:m.start()].encode("latin-1") if isb else f[pos:m.start()]))
                pos = m.end()
                if m.group(4) == "%":
                    parts.append(const(b"%" if isb else "%"))
                    continue
                if i >= len(args):
                    ok = False
                    break
                parts.append(self.strof(st, args[i], "r" if m.group(4) == "r" else "s"))
                i += 1
            parts.append(const(f[pos:].encode("latin-1") if isb else f[pos:]))
            if ok:
                return mkfmt(parts)
        return mk("fmt", (a, b))

    def e_Attribute(self, st, e, out):
        res = []
        for s, v in self.eval(st, e.value, out):
            res.extend(self.getattr_(s, v, e.attr, e, out))
        return res

    def e_Starred(self, st, e, out):
        return self.eval(st, e.value, out)

    def e_NamedExpr(self, st, e, out):
        res = []
        for s, v in self.eval(st, e.value, out):
            for s2 in self.assign(s, e.target, v, out):
                res.append((s2, v))
        return res

    def e_Lambda(self, st, e, out):
        return self.make_func(st, e, out)

    def e_Slice(self, st, e, out):
        return [(s, mk("sl", *[x if x is not None else NONE for x in vs]))
                for s, vs in self.eval_many(st, [e.lower, e.upper, e.step], out)]

    def e_Index(self, st, e, out):
        return self.eval(st, e.value, out)

    def e_Subscript(self, st, e, out):
        res = []
        for s, (b, k) in self.eval_many(st, [e.value, e.slice], out):
            res.extend(self.getitem(s, b, k, e, out))
        return res

    def getitem(self, st, b, k, node, out):
        r = self.mon.getitem(self, st, b, k, node, out)
        if r is not None:
            return r
        if k.op == "sl":
            return self.getslice(st, b, k, node, out)
        if is_const(b) and is_const(k):
            try:
                return [(st, const(cval(b)[cval(k)]))]
            except Exception as err:
                self.raise_(st, out, type(err).__name__, True, node)
                return []
        if b.op == "tuple":
            if is_const(k) and isinstance(cval(k), int):
                try:
                    return [(st, b.args[0][cval(k)])]
                except IndexError:
                    self.raise_(st, out, "IndexError", True, node)
                    return []
        if b.op == "nt" and is_const(k) and isinstance(cval(k), int):
            return [(st, b.args[2][cval(k)])]
        if b.op == "class":
            c = self.classes[b.args[0]]
            if self.is_enum(c.cid):
                if is_const(k) and c.attrs.get(cval(k)) is not None:
                    return [(st, c.attrs[cval(k)])]
                self.raise_(st, out, "KeyError", True, node)
                if is_const(k):
                    return []
                return [(st, mk("item", b, k))]
        if b.op == "ref":
            o = self.obj(st, b)
            if o is not None and o.kind == "inst":
                f = self.class_attr(o.cls, "__getitem__")
                if f is not None:
                    res = []
                    for s, m in self.getattr_(st, b, "__getitem__", node, out):
                        res.extend(self.call_value(s, m, (k,), (), node, out))
                    return res
            if o is not None and o.kind == "list" and o.items is not None and is_const(k) \
                    and isinstance(cval(k), int):
                try:
                    return [(st, o.items[cval(k)])]
                except IndexError:
                    self.raise_(st, out, "IndexError", True, node)
                    return []
            if o is not None and o.kind == "list" and o.items is None:
                if self.decide(st, b) is not True:
                    self.raise_(st, out, "IndexError", True, node)
                return [(st, mk("item", b, k))]
            if o is not None and o.kind == "dict":
                return self.dict_get(st, b, o, k, node, out, None)
        if self.mon.subscript_raises(self, st, b, k):
            self.raise_(st, out, "Exception", False, node)
        return [(st, mk("item", b, k))]

    def dict_get(self, st, b, o, k, node, out, default):
        """Value for key k; default None means a missing key raises KeyError."""
        res = []
        if k in o.items:
            return [(st, o.items[k])]
        kk = self.known_const(st, k)
        if kk in o.items:
            return [(st, o.items[kk])]
        cands = []
        for key in o.items:
            d = self.decide(st, self.mkeq(k, key))
            if d is True:
                return [(st, o.items[key])]
            if d is None:
                cands.append(key)
        cur = [st]
        if len(cands) <= 40:
            for key in sorted(cands, key=repr):
                nxt = []
                for s in cur:
                    for s2 in self.assume(s, self.mkeq(k, key), True):
                        res.append((s2, o.items[key]))
                    nxt.extend(self.assume(s, self.mkeq(k, key), False))
                cur = nxt
        elif cands:
            res.extend((s, mk("item", b, k)) for s in cur)
        for s in cur:
            inn = mk("cmp", "in", k, b)
            if o.rest:
                for s2, has in self.split(s, inn):
                    if has:
                        s3, v = self.mon.unknown_entry(self, s2, b, o, k, node)
                        res.append((s3, v))
                    elif default is None:
                        self.raise_(s2, out, "KeyError", True, node)
                    else:
                        res.append((s2, default))
            elif default is None:
                if o.cls == "collections.defaultdict":
                    s2, v = self.new(s, HObj("list", items=()), node, "dd")
                    s2 = s2.setobj(b.args[0], self.obj(s2, b).set_item(k, v))
                    res.append((s2, v))
                else:
                    self.raise_(s, out, "KeyError", True, node)
            else:
                res.append((s, default))
        return res

    def getslice(self, st, b, k, node, out):
        lo, hi, step = k.args
        if is_const(b) and all(is_const(x) for x in k.args):
            try:
                return [(st, const(cval(b)[cval(lo):cval(hi):cval(step)]))]
            except Exception:
                pass
        items = self.known_items(st, b)
        if items is not None and all(is_const(x) for x in k.args):
            sub = tuple(items)[cval(lo):cval(hi):cval(step)]
            if b.op == "tuple":
                return [(st, mk("tuple", sub))]
            return [self.new(st, HObj("list", items=sub), node)]
        return [(st, mk("slice", b, lo, hi, step))]

    # ------------------------------------------------------ comprehensions
    def comp(self, st, e, elts, out, kind):
        """Run a comprehension; returns [(state, list of element tuples or None, taint, info)]."""
        gens = e.generators

        def level(s, i, acc):
            """acc: tuple of element tuples (known) ; returns [(state, acc, exact, taint)]"""
            if i == len(gens):
                return [(s2, acc + (vs,), True, frozenset()) for s2, vs in self.eval_many(s, elts, out)]
            g = gens[i]
            res = []
            for s2, it in self.eval(s, g.iter, out):
                items = self.iter_items(s2, it)
                if is_call(it, "iter") and len(it.args[2]) == 2 or self.as_generator(s2, it) is not None:
                    raise NeedsLoop()
                if items is not None and len(items) <= 80:
                    cur = [(s2, acc, True, frozenset())]
                    for x in items:
                        nxt = []
                        for s3, a, ex, tn in cur:
                            for s4 in self.assign(s3, g.target, x, out):
                                keep, skip = [s4], []
                                for c in g.ifs:
                                    nk = []
                                    for s5 in keep:
                                        t, f = self.branch(s5, c, out)
                                        nk.extend(t)
                                        skip.extend(f)
                                    keep = nk
                                nxt.extend((s6, a, ex, tn) for s6 in skip)
                                for s6 in keep:
                                    for s7, a2, ex2, tn2 in level(s6, i + 1, a):
                                        nxt.append((s7, a2, ex and ex2, tn | tn2))
                        cur = nxt
                        if len(cur) > 300:
                            raise AnalysisError("comprehension too wide at %s" % self.loc(st, e))
                    res.extend(cur)
                else:
                    bad = self.iter_raises(s2, it)
                    if bad:
                        self.raise_(s2, out, bad if isinstance(bad, str) else "Exception", False, e)
                    # zero iterations
                    res.append((s2, acc, False, frozenset()))
                    for s4 in [z for el, s3 in self.elem_choices(s2, it, e) for z in self.assign(s3, g.target, el, out)]:
                        keep = [s4]
                        for c in g.ifs:
                            keep = [t for s5 in keep for t in self.branch(s5, c, out)[0]]
                        for s6 in keep:
                            for s7, a2, ex2, tn2 in level(s6, i + 1, acc):
                                res.append((s7, acc, False, tn2 | frozenset(x for vs in a2[len(acc):] for x in vs)))
            return res

        fid = st.cur + ">comp@" + self.site(st, e)
        caller = st.cur
        s = st.copy()
        s.frames = dict(st.frames)
        s.frames[fid] = {"@func": "<comp>", "@parent": caller, "@mod": st.frames[caller]["@mod"]}
        s.cur = fid
        inner = self.newout()
        save, out = out, inner
        res = level(s, 0, ())
        for s2, exc in inner.raises:
            save.raises.append((self.leave(s2, fid, caller), exc))
        return [(self.leave(s2, fid, caller), a, ex, tn) for s2, a, ex, tn in res]

    def leave(self, st, fid, caller):
        s = st.copy()
        s.frames = dict(st.frames)
        s.frames.pop(fid, None)
        s.cur = caller
        return s

    def comp_loop(self, st, e, kind, out):
        """A comprehension over a generator, as the loop it stands for."""
        name = "@comp%d_%d" % (e.lineno, e.col_offset)
        at = lambda n: ast.fix_missing_locations(ast.copy_location(n, e))
        acc = at(ast.Name(name, ast.Load()))
        if kind == "dict":
            body = at(ast.Assign(targets=[ast.Subscript(acc, e.key, ast.Store())], value=e.value))
        else:
            body = at(ast.Expr(ast.Call(ast.Attribute(acc, "add" if kind == "set" else "append", ast.Load()), [e.elt], [])))
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = at(ast.If(test=c, body=[body], orelse=[]))
            body = at(ast.For(target=g.target, iter=g.iter, body=[body], orelse=[]))
        fid, caller = st.cur + ">comp@" + self.site(st, e), st.cur
        s = st.copy()
        s.frames = dict(st.frames)
        s.frames[fid] = {"@func": "<comp>", "@parent": caller, "@mod": st.frames[caller]["@mod"]}
        s.cur = fid
        s, box = self.new(s, HObj(kind, items={} if kind == "dict" else ()), e)
        inner = self.newout()
        res = []
        for s2 in self.assign(s, acc, box, inner):
            res.extend((self.leave(z, fid, caller), box) for z in self.block(s2, [body], inner))
        out.raises.extend((self.leave(z, fid, caller), x) for z, x in inner.raises)
        out.exits.extend(inner.exits)
        return self.merge_vals(res)

    def e_ListComp(self, st, e, out, kind="list"):
        res, loose = [], {}
        probe = self.newout()
        try:
            found = self.comp(st, e, [e.elt], probe, kind)
        except NeedsLoop:
            return self.comp_loop(st, e, kind, out)
        out.raises.extend(probe.raises)
        out.exits.extend(probe.exits)
        for s, acc, exact, tn in found:
            if exact:
                res.append(self.new(s, HObj(kind, items=tuple(x[0] for x in acc)), e))
            else:
                k = s.key()
                if k in loose:
                    loose[k] = (s, loose[k][1] | tn)
                else:
                    loose[k] = (s, tn)
        made = self.selection(st, e, out) if loose else None
        for s, tn in loose.values():
            res.append(self.new(s, HObj(kind, items=None, taint=tn, made=made), e))
        return self.merge_vals(res)

    def selection(self, st, e, out):
        """The condition a comprehension selects its elements by, if it is simple."""
        if len(e.generators) != 1 or len(e.generators[0].ifs) != 1:
            return None
        g = e.generators[0]
        for n in ast.walk(ast.Tuple([g.iter, g.ifs[0]], ast.Load())):
            if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "len") or isinstance(
                    n.func, ast.Attribute) and n.func.attr in ("keys", "items", "values", "startswith", "endswith")):
                return None
        like = ast.copy_location(ast.ListComp(elt=g.ifs[0], generators=[ast.comprehension(g.target, g.iter, [], 0)]), e)
        r = self.comp_condition(st, like, out)
        return None if r is None else r[1]

    def e_SetComp(self, st, e, out):
        return self.e_ListComp(st, e, out, "set")

    def e_GeneratorExp(self, st, e, out):
        return self.e_ListComp(st, e, out)

    def e_DictComp(self, st, e, out):
        res, loose = [], {}
        probe = self.newout()
        try:
            found = self.comp(st, e, [e.key, e.value], probe, "dict")
        except NeedsLoop:
            return self.comp_loop(st, e, "dict", out)
        out.raises.extend(probe.raises)
        out.exits.extend(probe.exits)
        for s, acc, exact, tn in found:
            if exact:
                res.append(self.new(s, HObj("dict", items=dict(acc)), e))
            else:
                k = s.key()
                loose[k] = (s, loose[k][1] | tn if k in loose else tn)
        for s, tn in loose.values():
            res.append(self.new(s, HObj("dict", items={}, rest=True, taint=tn), e))
        return res

    def comp_condition(self, st, e, out):
        """For any()/all(): the element condition as a term, if it has one form."""
        if len(e.generators) != 1 or e.generators[0].ifs:
            return None
        g = e.generators[0]
        inner = self.newout()
        r = self.eval(st, g.iter, inner)
        if len(r) != 1 or inner.raises:
            return None
        s, it = r[0]
        if self.iter_items(s, it) is not None:
            return None
        ch = self.elem_choices(s, it, e)
        if len(ch) != 1 or ch[0][0].op != "elem":
            return None
        el, s2 = ch[0]
        fid = st.cur + ">comp@" + self.site(st, e)
        s3 = s2.copy()
        s3.frames = dict(s2.frames)
        s3.frames[fid] = {"@func": "<comp>", "@parent": st.cur, "@mod": st.frames[st.cur]["@mod"]}
        s3.cur = fid
        ss = self.assign(s3, g.target, el, inner)
        if len(ss) != 1:
            return None
        r = self.eval(ss[0], e.elt, inner)
        if len(r) != 1 or inner.raises:
            return None
        s4, cond = r[0]
        return self.leave(s4, fid, st.cur), mk("comp", cond, it, el)

    # -------------------------------------------------------------- yields
    def e_Yield(self, st, e, out):
        vals = self.eval(st, e.value, out) if e.value is not None else [(st, NONE)]
        res = []
        for s, v in vals:
            if not self.yield_hooks:
                raise AnalysisError("yield outside of a consumed generator at %s" % self.loc(st, e))
            hook = self.yield_hooks.pop()
            try:
                res.extend(hook(s, v, e, out))
            finally:
                self.yield_hooks.append(hook)
        return res

    def e_YieldFrom(self, st, e, out):
        res = []
        for s, it in self.eval(st, e.value, out):
            items = self.iter_items(s, it)
            if items is not None:
                cur = [s]
                for x in items:
                    hook = self.yield_hooks.pop()
                    try:
                        cur = [s3 for s2 in cur for s3, _ in hook(s2, x, e, out)]
                    finally:
                        self.yield_hooks.append(hook)
                res.extend((s2, NONE) for s2 in cur)
            else:
                raise AnalysisError("yield from unknown iterable at %s" % self.loc(st, e))
        return res

    def e_Await(self, st, e, out):
        return self.eval(st, e.value, out)


def models_alias(name):
    return {"unicode": "str", "long": "int", "xrange": "range", "unichr": "chr", "raw_input": "input",
            "basestring": "str"}.get(name, name)
