"""Deciding and assuming conditions over abstract values."""

from .terms import T, mk, const, is_const, cval, is_call, ext, NONE, TRUE, FALSE
from . import models

NEVER_NONE_OPS = ("ref", "fmt", "tuple", "class", "func", "bound", "enum", "mod", "excv", "nt", "bin", "cmp",
                  "not", "super", "ntclass")


def rename(t, old, new):
    """t with old replaced by new."""
    if t is old:
        return new
    if not isinstance(t, T) or t.op == "big":
        return t
    if old not in t.atoms and not (old.op not in ("sym", "phi", "elem", "ref") ):
        return t

    def rec(x):
        if isinstance(x, T):
            return rename(x, old, new)
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x

    args = tuple(rec(a) for a in t.args)
    if args == t.args:
        return t
    return mk(t.op, *args)


class Facts(object):
    """Mixin of Engine."""

    # ---------------------------------------------------------------- types
    def typeof(self, st, t):
        op = t.op
        if op == "const":
            return t.args[0][0]
        if op == "fmt":
            p = t.args[0][0]
            return self.typeof(st, p) if is_const(p) else "str"
        if op == "tuple" or op == "nt":
            return "tuple"
        if op == "ref":
            o = self.obj(st, t)
            if o is None:
                return None
            return o.kind if o.kind in ("list", "dict", "set") else (o.cls or o.kind)
        if op == "enum":
            return "int"
        if op == "call":
            return models.RET_TYPE.get(t.args[0]) or self.mon.rettype(t.args[0], t)
        if op in ("cmp", "not"):
            return "bool"
        if op == "bin" and t.args[0] in ("&", "|", "*", "-"):
            return "int"
        if op == "bin" and t.args[0] == "+" and t.args[1].op != "phi" != t.args[2].op and self.typeof(st, t.args[1]) == "int" and self.typeof(st, t.args[2]) == "int":
            return "int"
        if op in ("func", "bound"):
            return "function"
        if op in ("class",):
            return "type"
        if op == "sym" and len(t.args) > 1 and t.args[1]:
            return t.args[1]
        if op == "item" and is_call(t.args[0], "os.path.split", "os.path.splitext"):
            return "str"
        if op == "elem" and (is_call(t.args[0], "range", "xrange") or len(t.args) == 2 and is_const(t.args[0]) and isinstance(
                cval(t.args[0]), tuple) and cval(t.args[0]) and all(type(x) is int for x in cval(t.args[0]))):
            return "int"
        if (op == "item" and is_call(t.args[0], ".partition", ".rpartition")) or (
                op == "elem" and is_call(t.args[0], ".split", ".splitlines")):
            c = t.args[0]
            for x in c.args[2][:1] + (c.args[1],):
                ty = self.typeof(st, x) if x is not None else None
                if ty in ("str", "bytes"):
                    return ty
            return "str" if op == "elem" else None
        if op == "slice":
            return self.typeof(st, t.args[0])
        if op == "phi":
            tys = set(self.typeof(st, a) for a in self.phi_leaves(t))
            if len(tys) == 1:
                return tys.pop()
        if op in ("sym", "item", "elem", "attr") and st.facts:
            for k in ("bytes", "str", "int", "list", "dict"):
                if st.facts.get(mk("call", "isinstance", None, (t, ext(k)), (), None)) is True:
                    return k
        return None

    def phi_leaves(self, t):
        """The values that may have been merged into t (merges of merges opened)."""
        seen, todo, r = {t}, [t], []
        while todo:
            for a in self.phi_alts.get(todo.pop(), ()):
                if a in seen:
                    continue
                seen.add(a)
                if a.op == "phi":
                    todo.append(a)
                else:
                    r.append(a)
        return r

    # ------------------------------------------------------- canonical form
    def canon(self, st, t):
        """(term, polarity): the condition t as a fact key."""
        pol = True
        while True:
            if t.op == "not":
                t = t.args[0]
                pol = not pol
                continue
            if is_call(t, "bool", "len") and len(t.args[2]) == 1 and not t.args[3]:
                t = t.args[2][0]
                continue
            if t.op == "cmp":
                op, a, b = t.args
                if op == "eq":
                    if is_const(b) and cval(b) in (0,) and not isinstance(cval(b), bool):
                        if is_call(a, "len"):
                            t, pol = a.args[2][0], not pol
                            continue
                        if a.op == "bin" and a.args[0] in ("&", "|") :
                            t, pol = a, not pol
                            continue
                    if is_const(b) and cval(b) in ("", b"") and self.typeof(st, a) in ("str", "bytes"):
                        t, pol = a, not pol
                        continue
                    if is_const(b) and isinstance(cval(b), bool) and self.typeof(st, a) == "bool":
                        t = a
                        pol = pol if cval(b) else not pol
                        continue
                    if is_const(b) and b.args[0][0] == "int" and a.op == "bin" and a.args[0] == "&" \
                            and a.args[2] is b and cval(b) != 0 and (cval(b) & (cval(b) - 1)) == 0:
                        t = a  # (x & BIT) == BIT
                        continue
                elif op == "lt":
                    if is_const(a) and cval(a) == 0 and is_call(b, "len"):
                        t = b.args[2][0]
                        continue
                    if is_const(b) and cval(b) == 1 and is_call(a, "len"):
                        t, pol = a.args[2][0], not pol
                        continue
                    if is_const(a) and cval(a) == 0 and b.op == "bin" and b.args[0] == "&":
                        t = b
                        continue
            return t, pol

    def mkcmp(self, op, a, b):
        """Comparison term with normalised operator; (term) possibly under not."""
        if op in ("==", "is"):
            return self.mkeq(a, b)
        if op in ("!=", "is not"):
            return self.mknot(self.mkeq(a, b))
        if op == "<":
            return mk("cmp", "lt", a, b)
        if op == ">":
            return mk("cmp", "lt", b, a)
        if op == ">=":
            return self.mknot(mk("cmp", "lt", a, b))
        if op == "<=":
            return self.mknot(mk("cmp", "lt", b, a))
        if op == "in":
            return mk("cmp", "in", a, b)
        if op == "not in":
            return self.mknot(mk("cmp", "in", a, b))
        return mk("cmp", op, a, b)

    def mkeq(self, a, b):
        if is_const(a) and not is_const(b):
            a, b = b, a
        elif not is_const(b) and b.op == "enum" and a.op != "enum":
            pass
        elif a.op == "enum" and b.op != "enum" and not is_const(b):
            a, b = b, a
        elif not is_const(b) and not is_const(a) and b.op != "enum" and a.op != "enum" and repr(a) > repr(b):
            a, b = b, a
        return mk("cmp", "eq", a, b)

    def mknot(self, t):
        if t.op == "not":
            return t.args[0]
        if is_const(t):
            return const(not cval(t))
        return mk("not", t)

    # --------------------------------------------------------------- decide
    def decide(self, st, t):
        t, pol = self.canon(st, t)
        r = self._decide(st, t)
        if r is None:
            return None
        return r if pol else not r

    def _truth_struct(self, st, t):
        op = t.op
        if op == "const":
            return bool(cval(t))
        if op == "tuple":
            return bool(t.args[0])
        if op == "enum":
            v = t.args[2]
            return bool(cval(v)) if is_const(v) else None
        if op in ("func", "bound", "class", "mod", "ext", "super", "nt", "excv", "ntclass", "partial", "lambda"):
            return True
        if op == "attr" and t.args[1] == "__class__":
            return True
        if op == "fmt":
            for p in t.args[0]:
                if is_const(p) and len(cval(p)):
                    return True
            return None
        if op == "ref":
            o = self.obj(st, t)
            if o is None:
                return None
            if o.kind in ("list", "set"):
                return bool(o.items) if o.items is not None else None
            if o.kind == "dict":
                if o.items:
                    return True
                return None if o.rest else False
            if o.kind == "inst":
                if self.class_attr(o.cls, "__bool__") is None and self.class_attr(o.cls, "__len__") is None:
                    return True
                return None
            return True
        if op == "call":
            if t.args[0] in ("subprocess.Popen", "open", "socket.socket", "select.poll", "threading.Thread",
                             "threading.Lock", "socket.create_connection", "functools.partial"):
                return True
            if t.args[0] == "os.path.join":
                return True if any(is_const(x) and cval(x) for x in t.args[2]) else None
        return None

    def _decide(self, st, t):
        r = self._truth_struct(st, t)
        if r is not None:
            return r
        f = st.facts.get(t)
        if f is not None:
            return f
        op = t.op
        if op == "cmp":
            r = self._decide_cmp(st, t)
            return r if r is not None else self.mon.decide(self, st, t)
        if op == "call":
            n = t.args[0]
            if n in ("isinstance", "issubclass") and len(t.args[2]) == 2:
                return self._decide_isinstance(st, t.args[2][0], t.args[2][1])
        if op in ("sym", "call", "attr", "item", "elem", "phi", "slice", "bin"):
            if st.facts.get(mk("cmp", "eq", t, NONE)) is True:
                return False
            for c, v in self.eqs(st, t):
                if v and is_const(c):
                    return bool(cval(c))
        r = self.mon.decide(self, st, t)
        if r is not None:
            return r
        if op == "phi":
            return self._decide_phi(st, t, lambda a: self.decide(st, a))
        return None

    def _decide_phi(self, st, t, f):
        return None

    def eqs(self, st, t):
        """Known (constant, polarity) equalities of t."""
        out = []
        for k, v in st.facts.items():
            if k.op == "cmp" and k.args[0] == "eq" and k.args[1] is t and (is_const(k.args[2]) or k.args[2].op == "enum"):
                out.append((k.args[2], v))
        return out

    def known_const(self, st, t):
        """The constant t is known to equal, or t."""
        if is_const(t) or t.op == "enum":
            return t
        for c, v in self.eqs(st, t):
            if v:
                return c
        return t

    def never_none(self, st, t):
        if t.op == "const":
            return cval(t) is not None
        if t.op == "ext":
            return True
        if t.op in NEVER_NONE_OPS:
            return True
        ty = self.typeof(st, t)
        if ty is not None and ty != "NoneType":
            return True
        if t.op == "call" and (t.args[0] in ("open", "subprocess.Popen", "select.poll")):
            return True
        if st.facts.get(t) is True:
            return True
        for k, v in st.facts.items():
            if v and k.op == "call" and k.args[0] == "isinstance" and k.args[2] and k.args[2][0] is t:
                return True
            if v and k.op == "cmp" and k.args[0] == "eq" and k.args[1] is t and is_const(k.args[2]) \
                    and cval(k.args[2]) is not None:
                return True
        return False

    @staticmethod
    def _cv(t):
        if t.op == "enum":
            return cval(t.args[2]) if is_const(t.args[2]) else None
        return cval(t)

    def _decide_cmp(self, st, t):
        op, a, b = t.args
        ca = is_const(a) or (a.op == "enum" and is_const(a.args[2]))
        cb = is_const(b) or (b.op == "enum" and is_const(b.args[2]))
        if op == "eq":
            if ca and cb:
                va, vb = self._cv(a), self._cv(b)
                try:
                    return bool(va == vb)
                except Exception:
                    return None
            if a is b and a.op not in ("phi",):
                return True
            if a.op == "ref" and b.op == "ref":
                oa, ob = self.obj(st, a), self.obj(st, b)
                if oa is not None and ob is not None and oa.kind == "inst" and ob.kind == "inst":
                    return False
                return None
            if cb and cval(b) is None if b.op == "const" else False:
                if self.never_none(st, a):
                    return False
            if cb:
                f = st.facts.get(a)
                v = self._cv(b)
                if f is True and not v:
                    return False
                if f is False and v:
                    return False
                for c, pol in self.eqs(st, a):
                    if c is b:
                        return pol
                    if pol:
                        return self._cv(c) == v
                for k, kv in st.facts.items():
                    if kv and k.op == "cmp" and k.args[0] == "in" and k.args[1] is a and k.args[2].op == "tuple":
                        items = k.args[2].args[0]
                        if all(is_const(x) for x in items) and b.op == "const" and b not in items:
                            return False
                if b.op == "const":
                    ty, tb = self.typeof(st, a), b.args[0][0]
                    if ty in ("str", "bytes", "dict", "list", "tuple", "set") and tb in ("str", "bytes", "int", "NoneType") \
                            and ty != tb and tb != "bool":
                        return False
                # numeric bounds
                if b.op == "const" and isinstance(v, (int, float)) and not isinstance(v, bool):
                    r = self._num_range(st, a)
                    if r is not None:
                        lo, hi = r
                        if (lo is not None and v < lo) or (hi is not None and v > hi):
                            return False
            if a.op == "tuple" and b.op == "tuple":
                if len(a.args[0]) != len(b.args[0]):
                    return False
            if a.op in ("func", "class") and b.op in ("func", "class"):
                return a is b
            if a.op == "ext" and b.op == "ext":
                return a is b
            return None
        if op == "lt":
            if ca and cb:
                try:
                    return bool(self._cv(a) < self._cv(b))
                except Exception:
                    return None
            if a is b:
                return False
            if a.op == "tuple" and b.op == "tuple" and all(is_const(x) for x in a.args[0] + b.args[0]):
                try:
                    return tuple(cval(x) for x in a.args[0]) < tuple(cval(x) for x in b.args[0])
                except Exception:
                    return None
            ra, rb = self._num_range(st, a), self._num_range(st, b)
            if ra and rb:
                if ra[1] is not None and rb[0] is not None and ra[1] < rb[0]:
                    return True
                if ra[0] is not None and rb[1] is not None and ra[0] >= rb[1]:
                    return False
            if st.facts.get(mk("cmp", "lt", b, a)) is True:
                return False
            return None
        if op == "in":
            if b.op == "tuple":
                items = b.args[0]
                res = [self.decide(st, self.mkeq(a, x)) for x in items]
                if any(r is True for r in res):
                    return True
                if all(r is False for r in res):
                    return False
                return None
            if b.op == "const" and a.op == "const":
                try:
                    return cval(a) in cval(b)
                except Exception:
                    return None
            if b.op == "ref":
                o = self.obj(st, b)
                if o is not None:
                    if o.kind == "dict":
                        if a in o.items:
                            return True
                        maybe = [k for k in o.items if self.decide(st, self.mkeq(a, k)) is not False]
                        if not maybe and not o.rest:
                            return False
                        for k in maybe:
                            if self.decide(st, self.mkeq(a, k)) is True:
                                return True
                        return None
                    if o.kind in ("list", "set") and o.items is not None:
                        res = [self.decide(st, self.mkeq(a, x)) for x in o.items]
                        if any(r is True for r in res):
                            return True
                        if all(r is False for r in res):
                            return False
            if b.op == "call" and b.args[0] == ".keys" and b.args[1] is not None:
                return self.decide(st, mk("cmp", "in", a, b.args[1]))
            return None
        return None

    def _num_range(self, st, t):
        """(lo, hi) bounds of an integer-valued term from facts, or None."""
        if is_const(t):
            v = cval(t)
            return (v, v) if isinstance(v, (int, float)) and not isinstance(v, bool) else None
        lo = hi = None
        if is_call(t, "len"):
            lo = 0
            if st.facts.get(t.args[2][0]) is True:
                lo = 1
        for k, v in st.facts.items():
            if k.op != "cmp" or k.args[0] not in ("lt", "eq"):
                continue
            op, a, b = k.args
            if op == "eq":
                if v and a is t and is_const(b) and isinstance(cval(b), (int, float)):
                    return (cval(b), cval(b))
                continue
            if a is t and is_const(b) and isinstance(cval(b), (int, float)):
                if v:  # t < c
                    x = cval(b) - 1 if isinstance(cval(b), int) else cval(b)
                    hi = x if hi is None else min(hi, x)
                else:  # t >= c
                    lo = cval(b) if lo is None else max(lo, cval(b))
            elif b is t and is_const(a) and isinstance(cval(a), (int, float)):
                if v:  # c < t
                    x = cval(a) + 1 if isinstance(cval(a), int) else cval(a)
                    lo = x if lo is None else max(lo, x)
                else:
                    hi = cval(a) if hi is None else min(hi, cval(a))
        return (lo, hi) if lo is not None or hi is not None else None

    def _decide_isinstance(self, st, x, cls):
        if cls.op == "tuple":
            res = [self.decide(st, mk("call", "isinstance", None, (x, c), (), None)) for c in cls.args[0]]
            if any(r is True for r in res):
                return True
            if all(r is False for r in res):
                return False
            return None
        name = cls.args[0] if cls.op in ("ext", "class") else None
        if name is None:
            return None
        if x.op == "exc":
            return self.matches((x.args[0], x.args[1], frozenset(), x), name)
        if x.op == "excv":
            return self.matches((x.args[0], True, frozenset(), x), name)
        if x.op == "ref" and cls.op == "ext" and self.obj(st, x) is not None and self.obj(st, x).kind == "inst":
            anc = self.exception_class(self.obj(st, x).cls)
            if anc is not None:
                return name in anc
        ty = self.typeof(st, x)
        if ty is not None:
            if ty in ("int", "str", "bytes", "list", "dict", "tuple", "set", "float", "bool", "NoneType"):
                if ty == "bool" and name == "int":
                    return True
                if x.op == "enum":
                    if name == "int":
                        return True
                    return cls.op == "class" and name == x.args[0]
                if name in ("int", "str", "bytes", "list", "dict", "tuple", "set", "float", "bool"):
                    return ty == name
                if cls.op == "class":
                    return False
            if x.op == "ref" and cls.op == "class":
                o = self.obj(st, x)
                if o.kind == "inst":
                    return name in [c for c in self.mro(o.cls)]
                return False
            if x.op == "ref" and cls.op == "ext" and name in ("int", "str", "bytes", "float", "bool"):
                return False
        # exclusivity of builtin types
        basic = ("int", "str", "bytes", "list", "dict", "tuple", "set", "float")
        if name in basic:
            for k, v in st.facts.items():
                if v and is_call(k, "isinstance") and k.args[2][0] is x:
                    c = k.args[2][1]
                    if c.op == "ext" and c.args[0] in basic and c.args[0] != name:
                        return False
        if st.facts.get(mk("cmp", "eq", x, NONE)) is True and cls.op == "ext":
            return False
        return None

    # --------------------------------------------------------------- assume
    def assume(self, st, t, val):
        """States in which condition t has truth val (possibly none)."""
        d = self.decide(st, t)
        if d is not None:
            return [st] if d is val else []
        t, pol = self.canon(st, t)
        if not pol:
            val = not val
        s = st.setfact(t, val)
        if t.op == "cmp" and t.args[0] == "eq":
            a, b = t.args[1], t.args[2]
            if val and (is_const(b) or b.op == "enum"):
                v = self._cv(b)
                d = self._decide(st, a) if a.op not in ("const",) else None
                if d is not None and d != bool(v):
                    return []
                if a.op != "cmp":
                    s = s.setfact(a, bool(v))
                # contradiction with in-facts is caught in decide
            elif val and a.op == "tuple" and b.op == "tuple" and len(a.args[0]) == len(b.args[0]):
                ss = [s]
                for x, y in zip(a.args[0], b.args[0]):
                    ss = [u for w in ss for u in self.assume(w, self.mkeq(x, y), True)]
                return ss
        elif t.op == "call" and t.args[0] in ("any", "all"):
            s = self._assume_comp(s, t, val)
        elif t.op == "ref" and self.obj(s, t) is not None and self.obj(s, t).made is not None:
            s = self._assume_comp(s, mk("call", "any", None, (self.obj(s, t).made,), (), None), val)
        elif val and t.op == "call" and t.args[1] is not None and (
                t.args[0] in (".isdigit", ".isalpha", ".isalnum", ".isspace", ".isnumeric", ".isdecimal") or (
                t.args[0] in (".startswith", ".endswith") and t.args[2] and is_const(t.args[2][0])
                and cval(t.args[2][0]))):
            d = self.decide(s, t.args[1])
            if d is False:
                return []
            if not is_const(t.args[1]) and t.args[1].op not in ("fmt", "ref"):
                s = s.setfact(t.args[1], True)
        elif t.op == "call" and t.args[0] == "isinstance" and val:
            x = t.args[2][0]
            s = s.setfact(mk("cmp", "eq", x, NONE), False)
        elif t.op == "cmp" and t.args[0] == "in" and t.args[2].op == "tuple":
            items = t.args[2].args[0]
            if not val:
                for x in items:
                    ns = self.assume(s, self.mkeq(t.args[1], x), False)
                    if not ns:
                        return []
                    s = ns[0]
            elif len(items) <= 4:
                out = []
                for x in items:
                    out.extend(self.assume(s, self.mkeq(t.args[1], x), True))
                return out
        s = self.mon.assumed(self, s, t, val)
        if s is None:
            return []
        return s if isinstance(s, list) else [s]

    def _assume_comp(self, st, t, val):
        """any(P(e) for e in I) false / all(P(e) for e in I) true: P for all of I."""
        if len(t.args[2]) != 1 or t.args[2][0].op != "comp":
            return st
        cond, it, el = t.args[2][0].args
        cond, pol = self.canon(st, cond)
        if t.args[0] == "any":
            if cond.op == "cmp" and cond.args[0] == "eq" and cond.args[1] is el and pol:
                st = st.setfact(mk("cmp", "in", cond.args[2], it), val)
            if val:
                return st
            want = not pol
        else:
            if cond.op == "cmp" and cond.args[0] == "eq" and cond.args[1] is el and not pol and val:
                st = st.setfact(mk("cmp", "in", cond.args[2], it), False)
            if not val:
                return st
            want = pol
        return self.add_forall(st, it, el, [(cond, want)])

    def add_forall(self, st, it, el, facts):
        for cond, want in facts:
            if cond.op == "cmp" and cond.args[0] == "eq" and cond.args[1] is el and not want \
                    and (is_const(cond.args[2])):
                st = st.setfact(mk("cmp", "in", cond.args[2], it), False)
            st = st.setfact(mk("forall", it, rename(cond, el, mk("bound_var", "each"))), want)
        return st

    def forall_facts(self, st, it, el):
        for k, v in list(st.facts.items()):
            if k.op == "forall" and k.args[0] is it:
                st = st.setfact(rename(k.args[1], mk("bound_var", "each"), el), v)
        return st

    def purge(self, st, atom):
        """Forget everything known about a value that is being produced anew."""
        drop = [k for k in st.facts if atom in k.atoms]
        if drop:
            s = st.copy()
            s.facts = {k: v for k, v in st.facts.items() if atom not in k.atoms}
            st = s
        return self.mon.rebind(self, st, atom)

    def split(self, st, t):
        """[(state, bool)]"""
        d = self.decide(st, t)
        if d is not None:
            return [(st, d)]
        return [(s, True) for s in self.assume(st, t, True)] + [(s, False) for s in self.assume(st, t, False)]
