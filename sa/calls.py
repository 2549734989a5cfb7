"""Attribute access, calls and the models of built-in objects."""

import ast

from .terms import T, mk, const, is_const, cval, is_call, ext, call, ref, NONE, TRUE, FALSE
from .state import HObj, State
from .program import AnalysisError, builtin_exc, EXT_EXC, canon_exc
from .exprs import mkfmt
from . import models

EXT_ALIAS = {
    "io.open": "open", "builtins.open": "open", "codecs.open": "open", "posixpath.join": "os.path.join",
    "six.moves.xrange": "range", "os.errno": "errno", "thread.allocate_lock": "threading.Lock",
    "urllib.urlopen": "urllib.request.urlopen", "urllib2.urlopen": "urllib.request.urlopen",
    "six.moves.urllib.request.urlopen": "urllib.request.urlopen",
}


class Calls(object):

    # ---------------------------------------------------------- attributes
    def getattr_(self, st, b, name, node, out):
        r = self.mon.getattr(self, st, b, name, node)
        if r is not None:
            return r
        op = b.op
        if op == "mod":
            env = self.module_env(st, b.args[0])
            over = st.frames.get("mod:" + b.args[0])
            if over is not None and name in over:
                return [(st, over[name])]
            if name in env:
                return [(st, env[name])]
            sub = b.args[0] + "." + name
            if sub in self.mods:
                return [(st, mk("mod", sub))]
            self.raise_(st, out, "AttributeError", True, node)
            return []
        if op == "ext":
            full = b.args[0] + "." + name
            full = EXT_ALIAS.get(full, full)
            if full in models.CONSTS:
                return [(st, const(models.CONSTS[full]))]
            if full == "sys.version_info":
                return [(st, mk("tuple", (const(3), const(9), const(0), const("final"), const(0))))]
            return [(st, ext(full))]
        if op == "const" and cval(b) is None:
            if name.startswith("__"):
                return [(st, mk("attr", b, name))]
            self.raise_(st, out, "AttributeError", True, node)
            return []
        if op == "enum":
            if name == "value":
                return [(st, b.args[2])]
            if name == "name":
                return [(st, const(b.args[1]))]
        if op == "nt":
            if name in b.args[1]:
                return [(st, b.args[2][b.args[1].index(name)])]
        if op == "class":
            return self.class_getattr(st, b, name, node, out)
        if op == "super":
            return self.super_getattr(st, b, name, node, out)
        if op in ("func", "bound"):
            o = st.heap.get(("attrs", b if op == "func" else b.args[0])) or self.base_heap.get(
                ("attrs", b if op == "func" else b.args[0]))
            if o is not None and name in o.items:
                return [(st, o.items[name])]
            if name == "__name__":
                f = b if op == "func" else b.args[0]
                if f.op == "func":
                    return [(st, const(self.funcs[f.args[0]].name))]
            if name == "__self__" and op == "bound":
                return [(st, b.args[1])]
            if name == "__func__" and op == "bound":
                return [(st, b.args[0])]
            if not name.startswith("__"):
                self.raise_(st, out, "AttributeError", True, node)
                return []
            return [(st, mk("attr", b, name))]
        if op == "ref":
            o = self.obj(st, b)
            if o is not None and o.kind == "inst":
                return self.inst_getattr(st, b, o, name, node, out)
            if o is not None and o.kind == "ext" and name in o.items:
                return [(st, o.items[name])]
            return [(st, mk("attr", b, name))]
        if op == "sym" and len(b.args) > 1 and b.args[1] in self.classes:
            v = self.class_attr(b.args[1], name)
            if v is not None:
                return self.bind_attr(st, v, b, b.args[1], node, out)
        o = st.heap.get(("attrs", b))
        if o is not None and name in o.items:
            return [(st, o.items[name])]
        if op == "call" and b.args[0] == "type" and len(b.args[2]) == 1:
            x = b.args[2][0]
            if x.op == "ref":
                o = self.obj(st, x)
                if o is not None and o.kind == "inst":
                    return self.class_getattr(st, mk("class", o.cls), name, node, out)
        ty = self.typeof(st, b)
        if ty in ("str", "bytes", "int", "list", "dict") and not hasattr(
                {"str": str, "bytes": bytes, "int": int, "list": list, "dict": dict}[ty], name):
            self.raise_(st, out, "AttributeError", True, node)
            return []
        if self.mon.attribute_raises(self, st, b, name):
            self.raise_(st, out, "AttributeError", True, node)
        return [(st, mk("attr", b, name))]

    def inst_getattr(self, st, b, o, name, node, out):
        if name in o.items:
            return [(st, o.items[name])]
        if name == "__class__":
            return [(st, mk("class", o.cls))]
        if name == "__dict__":
            return [(st, mk("attr", b, name))]
        v = self.class_attr(o.cls, name)
        if v is not None:
            return self.bind_attr(st, v, b, o.cls, node, out)
        r = self.mon.lazy(self, st, b, o.cls, name)
        if r is not None:
            return r
        if o.rest:
            return [(st, mk("attr", b, name))]
        g = self.class_attr(o.cls, "__getattr__")
        if g is not None:
            return self.call_value(st, mk("bound", g, b), (const(name),), (), node, out)
        if self.ext_bases(o.cls):
            return [(st, mk("attr", b, name))]
        if self.strict_attrs:
            self.raise_(st, out, "AttributeError", True, node)
            return []
        return [(st, mk("attr", b, name))]

    def bind_attr(self, st, v, self_, cid, node, out):
        if v.op == "func":
            return [(st, mk("bound", v, self_))]
        if v.op == "ctxm":
            return [(st, mk("bound", v, self_))]
        if v.op == "prop":
            return self.call_value(st, mk("bound", v.args[0], self_), (), (), node, out)
        if v.op == "cm":
            return [(st, mk("bound", v.args[0], mk("class", cid)))]
        if v.op == "sm":
            return [(st, v.args[0])]
        return [(st, v)]

    def class_getattr(self, st, b, name, node, out):
        cid = b.args[0]
        over = st.heap.get(("attrs", b))
        if over is not None and name in over.items:
            return [(st, over.items[name])]
        v = self.class_attr(cid, name)
        if name == "__name__":
            return [(st, const(self.classes[cid].name))]
        if v is not None:
            if v.op == "cm":
                return [(st, mk("bound", v.args[0], b))]
            if v.op == "sm":
                return [(st, v.args[0])]
            return [(st, v)]
        if self.ext_bases(cid) or name.startswith("__"):
            bases = self.ext_bases(cid)
            if bases and not self.is_enum(cid):
                return [(st, ext(bases[0] + "." + name))]
            return [(st, mk("attr", b, name))]
        self.raise_(st, out, "AttributeError", True, node)
        return []

    def super_getattr(self, st, b, name, node, out):
        cid, self_ = b.args
        start = cid
        o = self.obj(st, self_) if self_.op == "ref" else None
        actual = o.cls if o is not None and o.kind == "inst" else (self_.args[0] if self_.op == "class" else cid)
        mro = self.mro(actual)
        if start in mro:
            mro = mro[mro.index(start) + 1:]
        for c in mro:
            if c in self.classes:
                v = self.classes[c].attrs.get(name)
                if v is not None:
                    return self.bind_attr(st, v, self_, c, node, out) if self_.op != "class" else \
                        [(st, mk("bound", v.args[0] if v.op == "cm" else v, self_))]
            elif c != "object":
                return [(st, mk("bound", ext(c + "." + name), self_))]
        return [(st, mk("bound", ext("object." + name), self_))]

    def setattr_(self, st, b, name, v, node, out):
        r = self.mon.store(self, st, b, name, v, node, out)
        if r is not None:
            return r
        if b.op == "ref":
            o = self.obj(st, b)
            if o is not None and o.kind == "inst":
                p = self.class_attr(o.cls, name)
                if p is not None and p.op == "prop":
                    if len(p.args) > 1 and p.args[1] is not None:
                        return [s for s, _ in self.call_value(st, mk("bound", p.args[1], b), (v,), (), node, out)]
                    self.raise_(st, out, "AttributeError", True, node)
                    return []
                return [st.setobj(b.args[0], o.set_item(name, v))]
            if o is not None and o.kind == "ext":
                return [st.setobj(b.args[0], o.set_item(name, v))]
        if b.op == "mod":
            return [st.setvar("mod:" + b.args[0], name, v)]
        addr = ("attrs", b)
        o = st.heap.get(addr) or self.base_heap.get(addr) or HObj("ext", cls="attrs", items={})
        return [st.setobj(addr, o.set_item(name, v))]

    # ---------------------------------------------------------------- calls
    def e_Call(self, st, e, out):
        res = []
        for s, f in self.eval(st, e.func, out):
            if f.op == "ext" and f.args[0] in ("any", "all") and len(e.args) == 1 and isinstance(
                    e.args[0], (ast.GeneratorExp, ast.ListComp)):
                r = self.comp_condition(s, e.args[0], out)
                if r is not None:
                    res.append((r[0], mk("call", f.args[0], None, (r[1],), (), None)))
                    continue
            es = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
            for s2, vs in self.eval_many(s, es, out):
                args, kwargs = [], []
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        k = self.known_items(s2, v)
                        if k is None:
                            args.append(mk("star", v))
                        else:
                            args.extend(k)
                    else:
                        args.append(v)
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        o = self.obj(s2, v) if v.op == "ref" else None
                        if o is not None and o.kind == "dict" and not o.rest and all(is_const(x) for x in o.items):
                            kwargs.extend((cval(x), y) for x, y in o.items.items())
                        else:
                            kwargs.append(("**", v))
                    else:
                        kwargs.append((k.arg, v))
                if f.op == "ext" and f.args[0] == "super" and not args:
                    sv = self.implicit_super(s2)
                    if sv is None:
                        raise AnalysisError("super() outside of a method at %s" % self.loc(st, e))
                    res.append((s2, sv))
                    continue
                if f.op == "ext" and f.args[0] in ("locals", "globals"):
                    res.append((s2, mk("sym", f.args[0] + "()", "dict")))
                    continue
                res.extend(self.call_value(s2, f, tuple(args), tuple(kwargs), e, out))
        return res

    def implicit_super(self, st):
        fid = st.cur
        while fid is not None:
            fr = st.frames.get(fid)
            if fr is None:
                return None
            fn = self.funcs.get(fr.get("@func"))
            if fn is not None and fn.cls:
                a = fn.node.args.args
                if a and a[0].arg in fr:
                    return mk("super", fn.cls, fr[a[0].arg])
            fid = fr.get("@parent")
        return None

    def call_value(self, st, f, args, kwargs, node, out):
        """[(state, result)]"""
        op = f.op
        if op == "func":
            return self.call_func(st, f, args, kwargs, node, out)
        if op == "ctxm":
            return [self.new(st, HObj("gen", cls="cm", items={"f": f.args[0], "a": mk("tuple", args),
                                                              "k": mk("kw", tuple(kwargs))}), node, "cm")]
        if op == "bound":
            g, self_ = f.args
            if g.op == "ext":
                return self.call_ext(st, g.args[0], (self_,) + args, kwargs, node, out, f)
            return self.call_value(st, g, (self_,) + args, kwargs, node, out)
        if op == "class":
            return self.instantiate(st, f, args, kwargs, node, out)
        if op == "ext":
            return self.call_ext(st, f.args[0], args, kwargs, node, out, f)
        if op == "attr":
            return self.call_method(st, f.args[0], f.args[1], args, kwargs, node, out, f)
        if op == "partial":
            g, pa, pk = f.args
            return self.call_value(st, g, pa + args, pk + kwargs, node, out)
        if op == "ntclass":
            fields = f.args[1]
            vals = list(args[:len(fields)])
            kw = dict(kwargs)
            for n in fields[len(vals):]:
                vals.append(kw.get(n, NONE))
            return [(st, mk("nt", f.args[0], fields, tuple(vals)))]
        if op == "cm" or op == "sm":
            return self.call_value(st, f.args[0], args, kwargs, node, out)
        if op == "decorator_id":
            return [(st, args[0])]
        if op == "ref":
            o = self.obj(st, f)
            if o is not None and o.kind == "inst":
                m = self.class_attr(o.cls, "__call__")
                if m is not None:
                    return self.call_value(st, mk("bound", m, f), args, kwargs, node, out)
            if o is not None and o.kind == "ext" and o.cls == "weakref.ref":
                return [(st, o.items["target"])]
        if op == "const" and cval(f) is None:
            self.raise_(st, out, "TypeError", True, node)
            return []
        # unknown callable
        return self.external(st, "call", f, args, kwargs, node, out)

    def call_func(self, st, f, args, kwargs, node, out):
        qual, closure = f.args
        fn = self.funcs[qual]
        r = self.mon.call(self, st, qual, None, args, kwargs, node)
        if r is not None:
            st, vals = self.apply_override(st, r, out, node)
            if st is None:
                return vals
        if fn.is_gen:
            return [self.new(st, HObj("gen", cls="gen", items={"f": f, "a": mk("tuple", args),
                                                               "k": mk("kw", tuple(kwargs))}), node, "gen")]
        if isinstance(fn.node, ast.AsyncFunctionDef):
            raise AnalysisError("async function %s" % qual)
        return self.inline(st, f, args, kwargs, node, out)

    def apply_override(self, st, r, out, node):
        """Monitor verdict on a call: list of ("ret",st,val)/("raise",st,exc)/("cont",st)."""
        vals, cont = [], None
        for o in r:
            if o[0] == "ret":
                vals.append((o[1], o[2]))
            elif o[0] == "raise":
                out.raises.append((o[1], o[2]))
            elif o[0] == "cont":
                cont = o[1]
            elif o[0] == "exit":
                out.exits.append((o[1], o[2]))
        if cont is not None:
            if vals:
                raise AnalysisError("mixed override")
            return cont, None
        return None, vals

    def in_stack(self, st, qual):
        return st.cur.count(">" + qual + "@") if st.cur else 0

    def inline(self, st, f, args, kwargs, node, out):
        qual, closure = f.args
        fn = self.funcs[qual]
        depth = self.in_stack(st, qual)
        if depth >= self.recursion:
            r = self.mon.recursive(self, st, qual, args, kwargs, node)
            if r is None:
                u = call("recursive:" + qual, None, args, tuple(kwargs), self.uid(st, node))
                self.raise_(st, out, "Exception", False, node)
                return [(self.purge(st, u), u)]
            _, vals = self.apply_override(st, r, out, node)
            return vals
        if st.cur.count(">") > 60:
            raise AnalysisError("call depth at %s" % self.loc(st, node))
        caller = st.cur
        inner = self.newout()
        entries = self.enter(st, f, args, kwargs, node, out)
        res = []
        for s in entries:
            fid = s.cur
            self.stats["functions"].add(qual)
            if isinstance(fn.node, ast.Lambda):
                for s2, v in self.eval(s, fn.node.body, inner):
                    inner.rets.append((s2, v))
            else:
                for s2 in self.block(s, fn.node.body, inner):
                    inner.rets.append((s2, NONE))
        fid = entries[0].cur if entries else None
        rets = [(self.exit_frame(s, fid, caller, fn), v) for s, v in inner.rets]
        raises = [(self.exit_frame(s, fid, caller, fn), x) for s, x in inner.raises]
        out.exits.extend(inner.exits)
        rets = self.merge_vals(rets)
        raises = self.merge_raises(raises)
        raises = [(s2, x) for s, x in raises for s2 in [self.mon.raised(self, s, qual, args, x, node)]
                  if s2 is not None]
        post = []
        for s, v in rets:
            r = self.mon.returned(self, s, qual, args, v, node)
            if r is not None:
                post.extend(r)
            else:
                post.append((s, v))
        out.raises.extend(raises)
        return post

    def enter(self, st, f, args, kwargs, node, out):
        """Bind arguments; [state in the callee's frame]."""
        qual, closure = f.args
        fn = self.funcs[qual]
        fid = "%s>%s@%s:%s%s" % (st.cur, qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
                                 self.rounds.get(st.cur, ""))
        a = fn.node.args
        frame = {"@func": qual, "@mod": fn.module}
        if closure is not None:
            frame["@parent"] = closure
        pos = [x.arg for x in list(getattr(a, "posonlyargs", [])) + list(a.args)]
        kwonly = [x.arg for x in a.kwonlyargs]
        defaults, kwdefaults = self.defaults.get(qual, ((), {}))
        args = list(args)
        star = None
        i = 0
        bad = False
        maybe_bad = False
        extra = []
        for j, v in enumerate(args):
            if v.op == "star":
                star = v.args[0]
                n = 0
                while i < len(pos):
                    # a starred sequence of unknown length
                    if any(k == pos[i] for k, _ in kwargs):
                        i += 1
                        continue
                    frame[pos[i]] = mk("item", star, const(n))
                    n += 1
                    i += 1
                    maybe_bad = True
                extra.append(v)
                continue
            if i < len(pos):
                frame[pos[i]] = v
                i += 1
            else:
                extra.append(v)
        kw = {}
        for k, v in kwargs:
            if k == "**":
                for n in pos[i:] + kwonly:
                    if n not in frame:
                        frame[n] = mk("item", v, const(n))
                kw["**"] = v
            elif k in pos or k in kwonly:
                if k in frame and not star:
                    bad = True
                frame[k] = v
            elif a.kwarg:
                kw[k] = v
            else:
                bad = True
        nd = len(defaults)
        for n, d in zip(pos[len(pos) - nd:] if nd else [], defaults):
            if n not in frame:
                frame[n] = d
        for n in kwonly:
            if n not in frame:
                if n in kwdefaults:
                    frame[n] = kwdefaults[n]
                else:
                    bad = True
        if any(n not in frame for n in pos):
            bad = True
        s = st
        if a.vararg:
            if star is not None and any(x.op == "star" for x in extra):
                if len(extra) == 1 and i == len(pos) and not pos[:]:
                    frame[a.vararg.arg] = star
                else:
                    frame[a.vararg.arg] = call("varargs", None, tuple(extra))
            else:
                frame[a.vararg.arg] = mk("tuple", tuple(extra))
        elif [x for x in extra if x.op != "star"]:
            bad = True
        if a.kwarg:
            items = {const(k): v for k, v in kw.items() if k != "**"}
            addr = ("kw", fid)
            s = s.setobj(addr, HObj("dict", items=items, rest="**" in kw,
                                    taint=frozenset([kw["**"]]) if "**" in kw else frozenset()))
            frame[a.kwarg.arg] = ref(addr)
        if bad:
            self.raise_(st, out, "TypeError", True, node)
            return []
        if maybe_bad and self.mon.star_raises(self, st, qual):
            self.raise_(st, out, "TypeError", True, node)
        s = s.copy()
        s.frames = dict(s.frames)
        s.frames[fid] = frame
        s.cur = fid
        return [s]

    def exit_frame(self, st, fid, caller, fn):
        s = st.copy()
        s.cur = caller
        if not fn.has_inner:
            s.frames = dict(s.frames)
            s.frames.pop(fid, None)
        return s

    def instantiate(self, st, f, args, kwargs, node, out):
        cid = f.args[0]
        c = self.classes[cid]
        r = self.mon.call(self, st, cid, None, args, kwargs, node)
        if r is not None:
            st, vals = self.apply_override(st, r, out, node)
            if st is None:
                return vals
        if self.is_enum(cid):
            x = args[0] if args else NONE
            if x.op == "enum":
                return [(st, x)]
            if is_const(x):
                for m in c.members:
                    mv = c.attrs[m]
                    if mv.op == "enum" and mv.args[2] is x:
                        return [(st, mv)]
                self.raise_(st, out, "ValueError", True, node)
                return []
            self.raise_(st, out, "ValueError", True, node)
            return [(st, call("enum:" + cid, None, (x,)))]
        s, r = self.new(st, HObj("inst", cls=cid, items={}), node, cid.split(":")[-1])
        init = self.class_attr(cid, "__init__")
        if init is None or init.op != "func":
            eb = self.ext_bases(cid)
            if self.is_exc(cid):
                return [(s.setobj(r.args[0], self.obj(s, r).set_item("args", mk("tuple", tuple(
                    a for a in args)))), r)]
            if eb and eb[0] not in ("object", "type"):
                return [(s2, r) for s2, _ in
                        self.call_ext(s, eb[0] + ".__init__", (r,) + args, kwargs, node, out, None)]
            return [(s, r)]
        return [(s2, r) for s2, _ in self.call_value(s, mk("bound", init, r), args, kwargs, node, out)]

    # ------------------------------------------------------ external calls
    def external(self, st, name, base, args, kwargs, node, out):
        """An external function (base None) or method (name starting with a dot)."""
        r = self.mon.call(self, st, name, base, args, kwargs, node)
        if r is not None:
            st, vals = self.apply_override(st, r, out, node)
            if st is None:
                return vals
        self.stats["external"].add((name, self.loc(st, node)))
        ismeth = name.startswith(".")
        if ismeth:
            pure = name[1:] in models.PURE_METHODS
        else:
            pure = name in models.PURE
        if not pure:
            pure = self.mon.pure(name)
        exc = self.ext_raises(st, name, base, args, kwargs)
        for en, exact in exc:
            self.raise_(st, out, en, exact, node, origin=name)
        if name in ("sys.exit",):
            self.raise_(st, out, "SystemExit", True, node)
            return []
        if name == "os._exit" or name.startswith("os.exec"):
            out.exits.append((st, name))
            return []
        if name in ("os.abort",):
            out.exits.append((st, name))
            return []
        u = None if pure else self.uid(st, node)
        t = mk("call", name, base, tuple(args), tuple(kwargs), u)
        if u is not None:
            st = self.purge(st, t)
        return [(st, t)]

    def ext_raises(self, st, name, base, args, kwargs):
        r = self.mon.raises(self, st, name, base, args, kwargs)
        if r is not None:
            return r
        if name.startswith("."):
            m = name[1:]
            if m == "decode":
                errs = dict(kwargs).get("errors") or (args[1] if len(args) > 1 else None)
                if errs is not None and is_const(errs) and cval(errs) in ("ignore", "replace", "backslashreplace"):
                    return []
                return [("UnicodeDecodeError", True)]
            if m in models.NORAISE_METHODS:
                return []
            if base is not None and base.op == "ext" and m in models.LOG_METHODS:
                return []
            return [("Exception", False)]
        if name in models.NORAISE:
            return []
        if name == "int":
            if not args or args[0].op in ("enum",) or self.typeof(st, args[0]) in ("int", "float", "bool"):
                return []
            if self.typeof(st, args[0]) in ("str", "bytes"):
                return [("ValueError", True)]
            return [("ValueError", True), ("TypeError", True)]
        if name == "float":
            return [("ValueError", True)]
        if name == "sys.exit" or name == "os._exit":
            return []
        if name.endswith(".__init__") and name.split(".")[0] in ("threading", "object", "Exception"):
            return []
        return [("Exception", False)]

    def call_ext(self, st, name, args, kwargs, node, out, f):
        name = EXT_ALIAS.get(name, name)
        # logger methods: logging.getLogger() results are calls, handled as methods
        m = getattr(self, "x_" + name.replace(".", "_"), None)
        if m is not None:
            r = m(st, args, kwargs, node, out)
            if r is not None:
                return r
        cn = canon_exc(name)
        if builtin_exc(cn) is not None or cn in EXT_EXC:
            return [(st, mk("excv", cn, tuple(args)))]
        # unbound method of an external class called with self
        return self.external(st, name, None, args, kwargs, node, out)

    # ------------------------------------------------------------ builtins
    def x_super(self, st, args, kwargs, node, out):
        if len(args) >= 2 and args[0].op == "class":
            return [(st, mk("super", args[0].args[0], args[1]))]
        return None

    def x_isinstance(self, st, args, kwargs, node, out):
        if len(args) != 2:
            return None
        x, c = args
        if c.op == "tuple" and len(c.args[0]) == 1:
            c = c.args[0][0]
        t = mk("call", "isinstance", None, (x, c), (), None)
        d = self.decide(st, t)
        return [(st, const(d) if d is not None else t)]

    def x_issubclass(self, st, args, kwargs, node, out):
        if len(args) != 2:
            return None
        x, c = args
        if x.op == "attr" and x.args[1] == "__class__":
            return self.x_isinstance(st, (x.args[0], c), kwargs, node, out)
        if x.op in ("class", "ext"):
            names = [y.args[0] for y in (c.args[0] if c.op == "tuple" else (c,)) if y.op in ("class", "ext")]
            anc = self.exception_class(x.args[0])
            if names and anc is not None:
                return [(st, const(any(n in anc for n in names)))]
        return None

    def x_callable(self, st, args, kwargs, node, out):
        if args and args[0].op in ("func", "bound", "class", "ext"):
            return [(st, TRUE)]
        if args and is_const(args[0]):
            return [(st, FALSE)]
        return None

    def x_len(self, st, args, kwargs, node, out):
        if len(args) != 1:
            return None
        x = args[0]
        if is_const(x) and isinstance(cval(x), (str, bytes)):
            return [(st, const(len(cval(x))))]
        items = self.known_items(st, x)
        if items is not None:
            return [(st, const(len(items)))]
        if x.op == "ref":
            o = self.obj(st, x)
            if o is not None and o.kind == "inst" and self.class_attr(o.cls, "__len__") is not None:
                return self.call_value(st, mk("bound", self.class_attr(o.cls, "__len__"), x), (), (), node, out)
        if self.mon.len_raises(self, st, x):
            self.raise_(st, out, "TypeError", True, node)
        return [(st, mk("call", "len", None, (x,), (), None))]

    def x_bool(self, st, args, kwargs, node, out):
        if len(args) != 1:
            return [(st, FALSE)]
        if self.has_bool(st, args[0]):
            return [(s, const(b)) for s, b in self.truth(st, args[0], node, out)]
        d = self.decide(st, args[0])
        return [(st, const(d))] if d is not None else None

    def x_getattr(self, st, args, kwargs, node, out):
        if len(args) < 2 or not is_const(args[1]):
            return [(st, mk("call", "getattr", None, tuple(args), (), None))]
        if len(args) == 2:
            return self.getattr_(st, args[0], cval(args[1]), node, out)
        inner = self.newout()
        r = self.getattr_(st, args[0], cval(args[1]), node, inner)
        res = list(r)
        known = args[0].op in ("ref", "mod", "class", "func", "bound") or args[0] in self.mon.whole
        if not known and r:
            res.append((st, args[2]))
        for s, x in inner.raises:
            if x[0] == "AttributeError":
                res.append((s, args[2]))
            else:
                out.raises.append((s, x))
        return res

    def x_setattr(self, st, args, kwargs, node, out):
        if len(args) == 3:
            name = cval(args[1]) if is_const(args[1]) else args[1]
            return [(s, NONE) for s in self.setattr_(st, args[0], name, args[2], node, out)]
        return None

    def x_hasattr(self, st, args, kwargs, node, out):
        if len(args) == 2 and is_const(args[1]):
            inner = self.newout()
            r = self.getattr_(st, args[0], cval(args[1]), node, inner)
            if r and not inner.raises and args[0].op in ("ref", "mod", "class"):
                return [(st, TRUE)]
            if not r and inner.raises:
                return [(st, FALSE)]
        return None

    def x_type(self, st, args, kwargs, node, out):
        if len(args) == 1 and args[0].op == "ref":
            o = self.obj(st, args[0])
            if o is not None and o.kind == "inst":
                return [(st, mk("class", o.cls))]
        return None

    def x_str(self, st, args, kwargs, node, out):
        if not args:
            return [(st, const(""))]
        if is_const(args[0]) and isinstance(cval(args[0]), (str, int)):
            return [(st, const(str(cval(args[0]))))]
        if len(args) == 1 and self.typeof(st, args[0]) == "str":
            return [(st, args[0])]
        return None

    def x_int(self, st, args, kwargs, node, out):
        if len(args) == 1:
            x = args[0]
            if is_const(x):
                try:
                    return [(st, const(int(cval(x))))]
                except Exception as err:
                    self.raise_(st, out, type(err).__name__, True, node)
                    return []
            if self.typeof(st, x) == "int":
                return [(st, x)]
        return None

    def _seq(self, st, args, node, kind):
        if not args:
            return [self.new(st, HObj(kind, items=()), node)]
        items = self.iter_items(st, args[0])
        if items is not None:
            if kind == "tuple":
                return [(st, mk("tuple", tuple(items)))]
            return [self.new(st, HObj(kind, items=tuple(items)), node)]
        return None

    def x_list(self, st, args, kwargs, node, out):
        r = self._seq(st, args, node, "list")
        if r is not None:
            return r
        g = self.as_generator(st, args[0])
        if g is not None:
            return self.collect(st, args[0], node, out)
        bad = self.iter_raises(st, args[0])
        if bad:
            self.raise_(st, out, bad if isinstance(bad, str) else "Exception", False, node)
        # a list of the same (unknown) items
        return [(st, mk("call", "list", None, tuple(args), (), None))]

    def x_tuple(self, st, args, kwargs, node, out):
        if not args:
            return [(st, mk("tuple", ()))]
        return self._seq(st, args, node, "tuple")

    def x_set(self, st, args, kwargs, node, out):
        r = self._seq(st, args, node, "set")
        if r is not None:
            return r
        return [self.new(st, HObj("set", items=None, taint=frozenset(args)), node)]

    x_frozenset = x_set

    def x_sorted(self, st, args, kwargs, node, out):
        if self.mon.sort_raises(self, st, args[0]):
            self.raise_(st, out, "TypeError", True, node)
        items = self.iter_items(st, args[0]) if args else None
        if items is not None and len(items) <= 1:
            return [self.new(st, HObj("list", items=tuple(items)), node)]
        return [(st, mk("call", "sorted", None, tuple(args), tuple(kwargs), None))]

    def x_dict(self, st, args, kwargs, node, out):
        items, rest, taint = {}, False, frozenset()
        if args:
            a = args[0]
            o = self.obj(st, a) if a.op == "ref" else None
            if o is not None and o.kind == "dict":
                items, rest, taint = dict(o.items), o.rest, o.taint
            else:
                ks = self.iter_items(st, a)
                if ks is not None and all(k.op == "tuple" and len(k.args[0]) == 2 for k in ks):
                    items = {k.args[0][0]: k.args[0][1] for k in ks}
                else:
                    rest, taint = True, frozenset([a])
                    if o is not None:
                        taint = taint | o.taint
                    if self.mon.dict_raises(self, st, a):
                        self.raise_(st, out, "TypeError", True, node)
                        self.raise_(st, out, "ValueError", True, node)
        for k, v in kwargs:
            if k == "**":
                rest = True
                taint = taint | {v}
            else:
                items[const(k)] = v
        return [self.new(st, HObj("dict", items=items, rest=rest, taint=taint), node)]

    def x_collections_OrderedDict(self, st, args, kwargs, node, out):
        return self.x_dict(st, args, kwargs, node, out)

    def x_collections_deque(self, st, args, kwargs, node, out):
        limit = dict(kwargs).get("maxlen", args[1] if len(args) > 1 else NONE)
        cls = None if limit is NONE else "bounded"      # drops what does not fit
        if not args:
            return [self.new(st, HObj("list", cls=cls, items=()), node, "deque")]
        res = self.x_list(st, args[:1], (), node, out)
        if cls and res:
            res = [(s.setobj(r.args[0], self.obj(s, r).with_(cls=cls)), r) for s, r in res]
        return res

    def x_collections_defaultdict(self, st, args, kwargs, node, out):
        return [self.new(st, HObj("dict", cls="collections.defaultdict", items={}), node, "dd")]

    def x_bytearray(self, st, args, kwargs, node, out):
        return None

    def x_collections_namedtuple(self, st, args, kwargs, node, out):
        if len(args) >= 2 and is_const(args[0]):
            if is_const(args[1]):
                fields = tuple(cval(args[1]).replace(",", " ").split())
            else:
                k = self.known_items(st, args[1])
                if k is None or not all(is_const(x) for x in k):
                    return None
                fields = tuple(cval(x) for x in k)
            return [(st, mk("ntclass", cval(args[0]), fields))]
        return None

    def x_range(self, st, args, kwargs, node, out):
        return [(st, mk("call", "range", None, tuple(args), (), None))]

    def x_iter(self, st, args, kwargs, node, out):
        if len(args) == 1:
            return [(st, args[0])]
        return [(st, mk("call", "iter", None, tuple(args), (), None))]

    def x_next(self, st, args, kwargs, node, out):
        return self.external(st, "next", None, args, kwargs, node, out)

    def x_functools_partial(self, st, args, kwargs, node, out):
        return [(st, mk("partial", args[0], tuple(args[1:]), tuple(kwargs)))]

    def x_functools_wraps(self, st, args, kwargs, node, out):
        return [(st, mk("decorator_id", "wraps"))]

    def x_property(self, st, args, kwargs, node, out):
        return [(st, mk("prop", args[0], args[1] if len(args) > 1 else None))]

    def x_classmethod(self, st, args, kwargs, node, out):
        return [(st, mk("cm", args[0]))]

    def x_staticmethod(self, st, args, kwargs, node, out):
        return [(st, mk("sm", args[0]))]

    def x_contextlib_contextmanager(self, st, args, kwargs, node, out):
        return [(st, mk("ctxm", args[0]))]

    def x_enum_unique(self, st, args, kwargs, node, out):
        return [(st, args[0])]

    def x_weakref_ref(self, st, args, kwargs, node, out):
        return [self.new(st, HObj("ext", cls="weakref.ref", items={"target": args[0]}), node, "weak")]

    def x_os_getenv(self, st, args, kwargs, node, out):
        return self.x_os_environ_get(st, args, kwargs, node, out)

    def x_os_environ_get(self, st, args, kwargs, node, out):
        v = self.mon.environ(self, st, args, kwargs)
        return [(st, v if v is not None else call("os.environ.get", None, args, kwargs))]

    def x_typing_cast(self, st, args, kwargs, node, out):
        return [(st, args[1])]

    def x_os_fspath(self, st, args, kwargs, node, out):
        return [(st, args[0])]

    def x_os_path_join(self, st, args, kwargs, node, out):
        flat = []
        for a in args:
            if is_call(a, "os.path.join") and not flat:
                flat.extend(a.args[2])
            else:
                flat.append(a)
        if all(is_const(a) for a in flat):
            import posixpath

            try:
                return [(st, const(posixpath.join(*[cval(a) for a in flat])))]
            except Exception:
                return None
        return [(st, mk("call", "os.path.join", None, tuple(flat), (), None))]

    def _extobj(self, cls):
        def f(st, args, kwargs, node, out):
            r = self.mon.call(self, st, cls, None, args, kwargs, node)
            if r is not None:
                st, vals = self.apply_override(st, r, out, node)
                if st is None:
                    return vals
            items = {}
            return [self.new(st, HObj("ext", cls=cls, items=items), node, cls.split(".")[-1])]

        return f

    def x_threading_Lock(self, st, args, kwargs, node, out):
        return self._extobj("threading.Lock")(st, args, kwargs, node, out)

    def x_threading_RLock(self, st, args, kwargs, node, out):
        return self._extobj("threading.RLock")(st, args, kwargs, node, out)

    def x_threading_Event(self, st, args, kwargs, node, out):
        return self._extobj("threading.Event")(st, args, kwargs, node, out)

    def x_threading_Condition(self, st, args, kwargs, node, out):
        return self._extobj("threading.Condition")(st, args, kwargs, node, out)

    def x_object(self, st, args, kwargs, node, out):
        return self._extobj("object")(st, args, kwargs, node, out)

    def x_threading_Thread(self, st, args, kwargs, node, out):
        s, r = self.new(st, HObj("ext", cls="threading.Thread", items={}), node, "Thread")
        return [(self.thread_init(s, r, args, kwargs), r)]

    def x_threading_Thread___init__(self, st, args, kwargs, node, out):
        return [(self.thread_init(st, args[0], args[1:], kwargs), NONE)]

    def thread_init(self, st, r, args, kwargs):
        names = ["group", "target", "name", "args", "kwargs"]
        kw = dict(zip(names, args))
        kw.update((k, v) for k, v in kwargs if k != "**")
        if r.op == "ref":
            o = self.obj(st, r)
            for k in ("target", "args", "kwargs", "daemon"):
                if k in kw:
                    o = o.set_item("@" + k if k != "daemon" else "daemon", kw[k])
            st = st.setobj(r.args[0], o)
        return st

    def is_thread(self, st, b):
        if b.op != "ref":
            return False
        o = self.obj(st, b)
        if o is None:
            return False
        if o.kind == "ext":
            return o.cls == "threading.Thread"
        return o.kind == "inst" and "threading.Thread" in self.mro(o.cls)

    def thread_body(self, st, b):
        """(callable, args, kwargs) that starting thread b runs."""
        o = self.obj(st, b)
        if o.kind == "inst":
            run = self.class_attr(o.cls, "run")
            if run is not None:
                return mk("bound", run, b), (), ()
        t = o.items.get("@target")
        if t is None:
            return None
        a = o.items.get("@args")
        k = o.items.get("@kwargs")
        args = self.known_items(st, a) if a is not None else ()
        kws = ()
        if k is not None and k.op == "ref":
            ko = self.obj(st, k)
            kws = tuple((cval(x), y) for x, y in ko.items.items())
        return t, tuple(args or ()), kws

    # ------------------------------------------------------------- methods
    def call_method(self, st, b, name, args, kwargs, node, out, f):
        if b.op == "ref":
            o = self.obj(st, b)
            if o is not None:
                if o.kind in ("list", "set"):
                    r = self.list_method(st, b, o, name, args, kwargs, node, out)
                    if r is not None:
                        return r
                elif o.kind == "dict":
                    r = self.dict_method(st, b, o, name, args, kwargs, node, out)
                    if r is not None:
                        return r
                elif o.kind == "ext" and o.cls in models.LOCK_CLASSES and name in ("acquire", "release", "locked",
                                                                                  "__enter__", "__exit__"):
                    if name in ("acquire", "__enter__"):
                        res = [(s, TRUE) for s in self.acquire(st, b, node, args, kwargs)]
                        if name == "acquire" and may_fail(args, kwargs):
                            res.append((st.setfact(mk("call", ".acquire", b, (), (), self.uid(st, node)), False), FALSE))
                        return res
                    if name in ("release", "__exit__"):
                        return [(s, NONE) for s in self.release(st, b, node)]
                if self.is_thread(st, b) and name == "start":
                    r = self.mon.thread_start(self, st, b, node)
                    if r is not None:
                        _, vals = self.apply_override(st, r, out, node)
                        return vals
                    self.raise_(st, out, "RuntimeError", True, node, origin="Thread.start")
                    return [(st, NONE)]
                if o.kind == "gen" and name in ("__next__", "next"):
                    return self.external(st, "next", None, (b,), kwargs, node, out)
                if o.kind == "gen" and name == "close":
                    return [(st, NONE)]
        if is_const(b) and name in models.PURE_METHODS and all(is_const(a) for a in args) and not [
                1 for k, v in kwargs if not is_const(v)]:
            try:
                r = getattr(cval(b), name)(*[cval(a) for a in args], **{k: cval(v) for k, v in kwargs})
                if isinstance(r, (str, bytes, int, bool, float, type(None))):
                    return [(st, const(r))]
                if isinstance(r, list):
                    return [self.new(st, HObj("list", items=tuple(const(x) for x in r)), node)]
                if isinstance(r, tuple):
                    return [(st, mk("tuple", tuple(const(x) for x in r)))]
            except Exception as err:
                self.raise_(st, out, type(err).__name__, True, node)
                return []
        if name == "format" and is_const(b) and isinstance(cval(b), str):
            t = self.strformat(st, cval(b), args, kwargs)
            if t is not None:
                return [(st, t)]
        if name == "join" and is_const(b) and isinstance(cval(b), (str, bytes)) and args:
            items = self.known_items(st, args[0])
            if items is not None:
                parts = []
                for i, x in enumerate(items):
                    if i:
                        parts.append(b)
                    parts.append(x)
                return [(st, mkfmt(parts) if parts else const(cval(b)[:0]))]
        if name in ("strip", "lower") and b.op == "fmt" and False:
            pass
        if name == "__contains__" and len(args) == 1:
            return self.compare(st, "in", args[0], b, node, out)
        if name == "__getitem__" and len(args) == 1:
            return self.getitem(st, b, args[0], node, out)
        if name in ("encode", "decode") and b.op == "fmt" and False:
            pass
        if name == "sort" and is_call(b, "list") and len(b.args[2]) == 1 and not args:
            new = mk("call", "sorted", None, b.args[2], tuple(kwargs), None)
            for fid, fr in st.frames.items():
                for n, v in fr.items():
                    if v is b:
                        st = st.setvar(fid, n, new)
            if self.mon.sort_raises(self, st, b.args[2][0]):
                self.raise_(st, out, "TypeError", True, node)
            return [(st, NONE)]
        return self.external(st, "." + name, b, args, kwargs, node, out)

    def strformat(self, st, f, args, kwargs):
        import string

        parts, auto = [], 0
        kw = dict((k, v) for k, v in kwargs if k != "**")
        try:
            fields = list(string.Formatter().parse(f))
        except ValueError:
            return None
        if any(a.op == "star" for a in args):
            return None
        for lit, field, spec, conv in fields:
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if field == "":
                if auto >= len(args):
                    return None
                v = args[auto]
                auto += 1
            elif field.isdigit():
                if int(field) >= len(args):
                    return None
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return None
            parts.append(self.strof(st, v, conv or "s"))
        return mkfmt(parts)

    def mutated(self, st, r):
        drop = [k for k in st.facts if r in k.atoms]
        if drop:
            st = st.copy()
            st.facts = {k: v for k, v in st.facts.items() if r not in k.atoms}
        return st

    def list_method(self, st, b, o, name, args, kwargs, node, out):
        r = self.mon.call(self, st, "." + name, b, args, kwargs, node)
        if r is not None:
            st, vals = self.apply_override(st, r, out, node)
            if st is None:
                return vals
            o = self.obj(st, b)
        addr = b.args[0]
        known = o.items is not None
        big = known and len(o.items) > 60
        if name in ("append", "add", "appendleft"):
            s = self.mutated(st, b)
            if known and not big:
                if name == "appendleft":
                    items = (args[0],) + o.items
                elif name == "add" and args[0] in o.items:
                    items = o.items
                else:
                    items = o.items + (args[0],)
                return [(s.setobj(addr, o.with_(items=items)), NONE)]
            s = s.setobj(addr, o.with_(items=None, taint=o.taint | {args[0]} | frozenset(o.items or ())))
            return [(s.setfact(b, True), NONE)]
        if name in ("extend", "update") and args:
            s = self.mutated(st, b)
            more = self.iter_items(st, args[0])
            if known and more is not None:
                return [(s.setobj(addr, o.with_(items=o.items + tuple(more))), NONE)]
            t = frozenset([args[0]]) if more is None else frozenset(more)
            return [(s.setobj(addr, o.with_(items=None, taint=o.taint | t | frozenset(o.items or ()))), NONE)]
        if name == "insert" and len(args) == 2:
            s = self.mutated(st, b)
            if known and is_const(args[0]):
                it = list(o.items)
                it.insert(cval(args[0]), args[1])
                return [(s.setobj(addr, o.with_(items=tuple(it))), NONE)]
            return [(s.setobj(addr, o.with_(items=None, taint=o.taint | {args[1]} | frozenset(o.items or ()))), NONE)]
        if name in ("pop", "popleft"):
            idx = cval(args[0]) if args and is_const(args[0]) else (-1 if not args else None)
            if name == "popleft":
                idx = 0
            if known and idx is not None and o.kind == "list":
                if not o.items:
                    self.raise_(st, out, "IndexError", True, node)
                    return []
                s = self.mutated(st, b)
                it = list(o.items)
                try:
                    v = it.pop(idx)
                except IndexError:
                    self.raise_(st, out, "IndexError", True, node)
                    return []
                return [(s.setobj(addr, o.with_(items=tuple(it))), v)]
            if self.decide(st, b) is not True:
                self.raise_(st, out, "IndexError" if o.kind == "list" else "KeyError", True, node)
            s = self.mutated(st, b)
            s = s.setobj(addr, o.with_(items=None, taint=o.taint | frozenset(o.items or ())))
            v = mk("call", "." + name, b, tuple(args), (), self.uid(st, node))
            return [(self.purge(s, v), v)]
        if name == "clear":
            return [(self.mutated(st, b).setobj(addr, o.with_(items=(), taint=frozenset())), NONE)]
        if name in ("remove", "discard"):
            s = self.mutated(st, b)
            if known and args[0] in o.items:
                it = list(o.items)
                it.remove(args[0])
                return [(s.setobj(addr, o.with_(items=tuple(it))), NONE)]
            if known and not o.items and name == "discard":
                return [(st, NONE)]
            if name == "remove":
                self.raise_(st, out, "ValueError" if o.kind == "list" else "KeyError", True, node)
            return [(s.setobj(addr, o.with_(items=None, taint=o.taint | frozenset(o.items or ()))), NONE)]
        if name in ("sort", "reverse"):
            if known and len(o.items) <= 1:
                return [(st, NONE)]
            return [(self.mutated(st, b).setobj(addr, o.with_(items=None, taint=o.taint | frozenset(
                o.items or ()))), NONE)]
        if name == "copy":
            return [self.new(st, o, node)]
        if name in ("index", "count"):
            return [(st, mk("call", "." + name, b, tuple(args), (), self.uid(st, node)))]
        return None

    def dict_method(self, st, b, o, name, args, kwargs, node, out):
        r = self.mon.call(self, st, "." + name, b, args, kwargs, node)
        if r is not None:
            st, vals = self.apply_override(st, r, out, node)
            if st is None:
                return vals
            o = self.obj(st, b)
        addr = b.args[0]
        if name == "get":
            return self.dict_get(st, b, o, args[0], node, out, args[1] if len(args) > 1 else
                                 dict(kwargs).get("default", NONE))
        if name == "setdefault":
            d = args[1] if len(args) > 1 else NONE
            if args[0] in o.items:
                return [(st, o.items[args[0]])]
            if not o.rest and self.decide(st, mk("cmp", "in", args[0], b)) is False:
                return [(self.mutated(st, b).setobj(addr, o.set_item(args[0], d)), d)]
            res = []
            for s, has in self.split(st, mk("cmp", "in", args[0], b)):
                if has:
                    s2, v = self.mon.unknown_entry(self, s, b, o, args[0], node)
                    res.append((s2, v))
                else:
                    s2 = self.mutated(s, b)
                    res.append((s2.setobj(addr, o.set_item(args[0], d)), d))
            return res
        if name == "pop":
            miss = self.newout()
            d = args[1] if len(args) > 1 else None
            vals = self.dict_get(st, b, o, args[0], node, out, d)
            res = []
            for s, v in vals:
                s = self.mutated(s, b)
                oo = self.obj(s, b)
                if args[0] in oo.items:
                    oo = oo.del_item(args[0])
                elif v is not d:
                    hit = [k for k in oo.items if oo.items[k] is v and self.decide(s, self.mkeq(args[0], k)) is True]
                    for k in hit:
                        oo = oo.del_item(k)
                s = s.setobj(addr, oo)
                s = s.setfact(mk("cmp", "in", args[0], b), False)
                res.append((s, v))
            return res
        if name in ("keys", "values", "items", "iterkeys", "itervalues", "iteritems"):
            return [(st, mk("call", "." + name.replace("iter", ""), b, (), (), None))]
        if name == "clear":
            return [(self.mutated(st, b).setobj(addr, o.with_(items={}, rest=False, taint=frozenset())), NONE)]
        if name == "copy":
            return [self.new(st, o, node)]
        if name == "update":
            items, rest, taint = dict(o.items), o.rest, o.taint
            for a in args:
                oa = self.obj(st, a) if a.op == "ref" else None
                if oa is not None and oa.kind == "dict":
                    items.update(oa.items)
                    rest = rest or oa.rest
                    taint = taint | oa.taint
                else:
                    rest = True
                    taint = taint | {a}
            for k, v in kwargs:
                if k == "**":
                    rest = True
                    taint = taint | {v}
                else:
                    items[const(k)] = v
            return [(self.mutated(st, b).setobj(addr, o.with_(items=items, rest=rest, taint=taint)), NONE)]
        return None

    def setitem(self, st, b, k, v, node, out):
        r = self.mon.setitem(self, st, b, k, v, node, out)
        if isinstance(r, State):
            st = r
        elif r is not None:
            return r
        if b.op == "ref":
            o = self.obj(st, b)
            if o is not None and o.kind == "inst":
                f = self.class_attr(o.cls, "__setitem__")
                if f is not None:
                    return [s for s, _ in self.call_value(st, mk("bound", f, b), (k, v), (), node, out)]
            if o is not None and o.kind == "dict":
                kk = self.known_const(st, k)
                kk = kk if kk in o.items else k
                return self.dict_set(st, b, kk, v)
            if o is not None and o.kind in ("list",):
                s = self.mutated(st, b)
                if k.op == "sl":
                    full = k.args[0] is NONE and k.args[1] is NONE
                    items = self.iter_items(st, v)
                    if full and items is not None:
                        return [s.setobj(b.args[0], o.with_(items=tuple(items), taint=frozenset()))]
                    return [s.setobj(b.args[0], o.with_(items=None, taint=(frozenset() if full else o.taint | frozenset(
                        o.items or ())) | {v}))]
                if o.items is not None and is_const(k) and isinstance(cval(k), int) and -len(o.items) <= cval(k) < len(
                        o.items):
                    it = list(o.items)
                    it[cval(k)] = v
                    return [s.setobj(b.args[0], o.with_(items=tuple(it)))]
                if self.decide(st, b) is not True:
                    self.raise_(st, out, "IndexError", True, node)
                return [s.setobj(b.args[0], o.with_(items=None, taint=o.taint | {v} | frozenset(o.items or ())))]
        return [st]

    def dict_set(self, st, b, k, v):
        """b[k] = v; a key that may be another one already there is told apart."""
        o = self.obj(st, b)
        addr = b.args[0]
        s = self.mutated(st, b)
        if k in o.items or all(is_const(x) for x in o.items) and is_const(k):
            return [s.setobj(addr, o.set_item(k, v))]
        cands = [x for x in o.items if self.decide(s, self.mkeq(k, x)) is not False]
        if not cands:
            return [s.setobj(addr, o.set_item(k, v))]
        if len(cands) > 4:
            keep = {x: y for x, y in o.items.items() if x not in cands}
            taint = o.taint | frozenset(o.items[x] for x in cands) | {v}
            return [s.setobj(addr, o.with_(items=keep, rest=True, taint=taint))]
        res = []
        cur = [s]
        for x in cands:
            nxt = []
            for z in cur:
                for z2 in self.assume(z, self.mkeq(k, x), True):
                    res.append(z2.setobj(addr, o.set_item(x, v)))
                nxt.extend(self.assume(z, self.mkeq(k, x), False))
            cur = nxt
        res.extend(z.setobj(addr, o.set_item(k, v)) for z in cur)
        return res

    def delitem(self, st, b, k, node, out):
        r = self.mon.delitem(self, st, b, k, node, out)
        if r is not None:
            return r
        if b.op == "ref":
            o = self.obj(st, b)
            if o is not None and o.kind == "dict":
                if k in o.items:
                    s = self.mutated(st, b)
                    s = s.setobj(b.args[0], o.del_item(k))
                    return [s.setfact(mk("cmp", "in", k, b), False)]
                if self.decide(st, mk("cmp", "in", k, b)) is not True:
                    self.raise_(st, out, "KeyError", True, node)
                    if not o.rest and not o.items:
                        return []
                s = self.mutated(st, b)
                return [s.setfact(mk("cmp", "in", k, b), False)]
            if o is not None and o.kind == "list":
                s = self.mutated(st, b)
                if k.op == "sl" and k.args[0] is NONE and k.args[1] is NONE:
                    return [s.setobj(b.args[0], o.with_(items=(), taint=frozenset()))]
                if k.op != "sl" and o.items is not None and is_const(k):
                    it = list(o.items)
                    try:
                        del it[cval(k)]
                    except IndexError:
                        self.raise_(st, out, "IndexError", True, node)
                        return []
                    return [s.setobj(b.args[0], o.with_(items=tuple(it)))]
                if self.decide(st, b) is not True and k.op != "sl":
                    self.raise_(st, out, "IndexError", True, node)
                return [s.setobj(b.args[0], o.with_(items=None, taint=o.taint | frozenset(o.items or ())))]
        if self.mon.subscript_raises(self, st, b, k):
            self.raise_(st, out, "Exception", False, node)
        return [st]


def may_fail(args, kwargs):
    """Whether taking a lock with these arguments may end without it."""
    given = dict(zip(("blocking", "timeout"), args))
    given.update(kwargs)
    blocking, timeout = given.get("blocking", TRUE), given.get("timeout")
    if not (is_const(blocking) and cval(blocking)):
        return True
    return timeout is not None and not (is_const(timeout) and cval(timeout) in (None, -1))
