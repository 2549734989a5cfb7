"""Where a path, as built by the code, can lie: lexical containment of path terms under what is known about their parts.

A path is placed under an anchor: the remote directory ("R"), the directory for temporary files ("T"), or a constant; below it
come components: ("const", text), ("name", term) without a separator, ("rel", term) relative of any length.  Symbolic links are
not followed."""

from .terms import T, mk, const, is_const, cval, is_call, call, subterms, NONE

SAME = ("os.path.abspath", "os.path.normpath", "os.path.realpath", "os.path.expanduser", "str", "os.fsencode", "os.fsdecode",
        "os.fspath", "text_type", "os.path.expandvars", "os.path.normcase")
NORMAL = ("os.path.abspath", "os.path.normpath", "os.path.realpath")
TEXT = ("/", b"/")


class Unclear(Exception):
    """Not understood: no verdict."""


class Open(Exception):
    """The path may lead anywhere; the argument is the part of it that is not restricted."""


class Paths(object):

    def __init__(self, eng, remote, temps=("/var/tmp", "/tmp")):
        self.eng = eng
        self.remote = self.core(remote)
        self.temps = temps
        self.memo = {}
        self.open_phis = set()
        self.facts = {}

    def core(self, t):
        while True:
            if t.op == "call" and t.args[0] in SAME and len(t.args[2]) == 1:
                t = t.args[2][0]
            elif is_call(t, ".encode", ".decode") and t.args[1] is not None:
                t = t.args[1]
            else:
                return t

    def unwrap(self, t):
        return t

    def strip(self, t):
        """t in a normal form: conversions between text and bytes left out, one form for the parts of a path."""
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.strip_(t)
        return r

    def strip_(self, t):
        if is_const(t):
            v = cval(t)
            return const(v.decode("utf-8", "replace")) if isinstance(v, bytes) else t
        if t.op in ("sym", "phi", "elem", "ref", "big", "exc"):
            return t
        if is_call(t, ".encode", ".decode") and t.args[1] is not None:
            return self.strip(t.args[1])
        if t.op == "call" and t.args[0] in ("str", "os.fsencode", "os.fsdecode", "os.fspath", "text_type") and t.args[2]:
            return self.strip(t.args[2][0])

        def rec(x):
            if isinstance(x, T):
                return self.strip(x)
            return tuple(rec(y) for y in x) if isinstance(x, tuple) else x

        args = tuple(rec(a) for a in t.args) if t.op != "const" else t.args
        if t.op == "call" and t.args[0] in ("os.path.basename", "os.path.dirname") and len(args[2]) == 1:
            return mk("item", call("os.path.split", None, args[2]), const(1 if t.args[0] == "os.path.basename" else 0))
        if t.op == "item" and is_const(args[1]) and cval(args[1]) == -1 and is_call(args[0], "os.path.split"):
            return mk("item", args[0], const(1))
        if t.op == "item" and is_call(args[0], ".rpartition") and args[0].args[2] == (const("/"),) and is_const(args[1]) \
                and cval(args[1]) in (0, 2):
            # the same but for paths directly below the root, and redundant separators
            return mk("item", call("os.path.split", None, (args[0].args[1],)), const(cval(args[1]) // 2))
        if t.op == "call" and t.args[0].startswith(".") and args[4] is not None and t.args[0] in (
                ".split", ".lstrip", ".rstrip", ".strip", ".startswith", ".endswith", ".replace"):
            args = args[:4] + (None,)
        if t.op == "fmt":
            # a name taken apart and put together again
            xs = []
            for x in args[0]:
                if xs and x.op == "item" and is_call(x.args[0], "os.path.splitext") and cval(x.args[1]) == 1 \
                        and xs[-1] is mk("item", x.args[0], const(0)):
                    xs[-1] = x.args[0].args[2][0]
                else:
                    xs.append(x)
            if len(xs) == 1:
                return xs[0]
            return mk("fmt", tuple(xs))
        return mk(t.op, *args)

    # ---------------------------------------------------------------- facts
    def texts(self, t):
        return [t]

    def sepfree(self, st, t):
        """t has no separator."""
        t = self.unwrap(t)
        if is_const(t):
            v = cval(t)
            return isinstance(v, (str, bytes)) and ("/" if isinstance(v, str) else b"/") not in v
        if t.op in ("const", "enum") or self.number(st, t):
            return True
        if is_call(t, "os.path.basename") or t.op == "item" and is_call(t.args[0], "os.path.split") and is_const(t.args[1]) \
                and cval(t.args[1]) in (1, -1):
            return True
        if t.op == "item" and is_call(t.args[0], "os.path.splitext", ".partition", ".rpartition") or is_call(t, ".strip", ".lstrip", ".rstrip",
                                                                                            ".lower", ".upper"):
            b = t.args[0] if t.op == "item" else t
            x = b.args[2][0] if b.args[1] is None else b.args[1]
            if self.sepfree(st, x):
                return True
        if is_call(t, ".replace") and len(t.args[2]) == 2 and t.args[2][0] is const("/") and self.sepfree(st, t.args[2][1]):
            return True
        if t.op == "fmt":
            return all(self.sepfree(st, x) for x in t.args[0])
        if t.op == "elem" and self.splits(t.args[0]):
            return True
        if t.op == "item" and is_call(t.args[0], ".split", ".rsplit") and t.args[0].args[2] == (const("/"),):
            return is_call(t.args[0], ".split")
        for x in self.texts(t):
            for sep in TEXT:
                if self.known(st, mk("cmp", "in", const(sep), x)) is False:
                    return True
                # equal to its own last component
                for f in (call("os.path.basename", None, (x,)), mk("item", call("os.path.split", None, (x,)), const(1))):
                    if self.known(st, self.eng.mkeq(f, x)) is True:
                        return True
        return False

    def known(self, st, t):
        k, pol = self.eng.canon(st, t)
        v = self.facts.get(k)
        return None if v is None else v == pol

    def number(self, st, t):
        if self.eng.typeof(st, t) == "int" or is_const(t) and type(cval(t)) is int:
            return True
        return t.op == "bin" and t.args[0] in ("+", "-") and any(self.number(st, x) for x in t.args[1:3])

    def contains(self, st, whole, part):
        """Every component of part is a component of whole, textually."""
        if whole is part:
            return True
        slash = ((const("/"),),)
        if part.op in ("elem", "item") and self.splits(part.args[0]) and self.contains(st, whole, part.args[0].args[1]):
            return True
        if is_call(part, ".lstrip", ".rstrip", ".strip") and part.args[2] in slash and self.contains(st, whole, part.args[1]):
            return True
        if part.op == "item" and is_call(part.args[0], "os.path.split") and self.contains(st, whole, part.args[0].args[2][0]):
            return True
        if is_call(part, "os.path.join") and any(not is_const(x) for x in part.args[2]) and all(
                is_const(x) and ".." not in str(cval(x)) or self.contains(st, whole, x) for x in part.args[2]):
            return True
        if is_call(whole, "os.path.join"):
            return any(self.contains(st, x, part) for x in whole.args[2])
        if is_call(whole, ".lstrip", ".rstrip", ".strip") and whole.args[2] in slash:
            return self.contains(st, whole.args[1], part)
        if whole.op == "fmt":
            # delimited by separators or the ends of the text
            xs = whole.args[0]
            for i, x in enumerate(xs):
                if not is_const(x) and self.contains(st, x, part):
                    before = i == 0 or is_const(xs[i - 1]) and str(cval(xs[i - 1])).endswith("/")
                    after = i == len(xs) - 1 or is_const(xs[i + 1]) and str(cval(xs[i + 1])).startswith("/")
                    if before and after:
                        return True
        return False

    def nodots(self, st, t):
        """No component of t is '..'."""
        t = self.unwrap(t)
        if is_const(t):
            v = cval(t)
            return not isinstance(v, (str, bytes)) or (".." if isinstance(v, str) else b"..") not in v.split("/" if isinstance(v, str) else b"/")
        if self.number(st, t):
            return True
        if t.op == "item" and is_call(t.args[0], "os.path.splitext") and cval(t.args[1]) == 1 and self.sepfree(st, t):
            return True
        if t.op == "item" and is_call(t.args[0], "os.path.splitext"):
            return self.nodots(st, t.args[0].args[2][0])
        if t.op == "fmt" and self.sepfree(st, t) and any(is_const(x) and set(str(cval(x))) - {"."} for x in t.args[0]):
            return True
        free = self.sepfree(st, t)
        if t.op == "item" and is_call(t.args[0], "os.path.split") and cval(t.args[1]) == 1:
            try:
                anchor, comps = self.place(st, t.args[0].args[2][0])
                if comps and all(kind == "safe" or kind == "const" and x != ".." or kind in ("name", "rel") and x is not t and self.nodots(st, x)
                                 for kind, x in comps):
                    return True
            except (Open, Unclear):
                pass
        for k, v in self.facts.items():
            if v is not False and k.op != "forall":
                continue
            if k.op == "cmp" and k.args[0] == "in" and is_const(k.args[1]) and cval(k.args[1]) in ("..", b".."):
                x = k.args[2]
                if is_call(x, ".split") and x.args[2] in ((const("/"),), (const(b"/"),)):
                    x = x.args[1]
                if self.contains(st, x, t):
                    return True
            if k.op == "cmp" and k.args[0] == "eq" and free:
                a, b = k.args[1], k.args[2]
                for p, q in ((a, b), (b, a)):
                    if is_const(p) and cval(p) in ("..", b"..") and (self.unwrap(q) is t or self.contains(st, q, t) and self.sepfree(st, q)):
                        return True
            if k.op == "cmp" and k.args[0] == "in" and free and k.args[2].op == "tuple" and const("..") in k.args[2].args[0] \
                    and self.unwrap(k.args[1]) is t:
                return True
            if k.op == "cmp" and k.args[0] == "in" and free and is_const(k.args[2]) and isinstance(cval(k.args[2]), (tuple, frozenset)) \
                    and ".." in cval(k.args[2]) and self.unwrap(k.args[1]) is t:
                return True
            if k.op == "call" and k.args[0] == ".startswith" and free and len(k.args[2]) == 1 and is_const(k.args[2][0]) \
                    and cval(k.args[2][0]) in (".", "..", b".", b"..") and self.unwrap(k.args[1]) is t:
                return True
            if k.op == "forall":
                it, cond = k.args[0], k.args[1]
                pos = cond.op == "cmp" and cond.args[0] == "eq" and v is False
                if pos and any(is_const(x) and cval(x) in ("..", b"..") for x in cond.args[1:]) and is_call(it, ".split") \
                        and it.args[2] in ((const("/"),), (const(b"/"),)) and self.contains(st, it.args[1], t):
                    return True
        return False

    def relative(self, st, t):
        t = self.unwrap(t)
        if is_call(t, ".lstrip", ".strip") and t.args[2] in ((const("/"),), (const(b"/"),)):
            return True
        if is_call(t, "os.path.relpath"):
            return True
        if is_call(t, ".join") and t.args[1] is not None and is_const(t.args[1]) and cval(t.args[1]) in TEXT:
            return False
        for x in self.texts(t):
            for f in (mk("call", ".startswith", x, (const("/"),), (), None), call("os.path.isabs", None, (x,))):
                if self.known(st, f) is False:
                    return True
        return False

    # ---------------------------------------------------------------- place
    def place(self, st, t, depth=0):
        """(anchor, components); Open or Unclear otherwise."""
        if depth > 12:
            raise Unclear("nesting of %s" % t)
        t = self.unwrap(t)
        if self.core(t) is self.remote and not (is_const(t) and t is not self.remote):
            return ("R", ())
        if is_call(t, "tempfile.gettempdir", "tempfile.gettempdirb", "tempfile.mkdtemp") and not self.tainted(t):
            return ("T", ())
        if is_const(t) and isinstance(cval(t), (str, bytes)):
            v = cval(t) if isinstance(cval(t), str) else cval(t).decode("utf-8", "replace")
            for p in self.temps:
                if v.startswith(p + "/") or v == p:
                    return ("T", tuple(("const", x) for x in v[len(p):].split("/") if x))
            if v.startswith("/"):
                return ("/", tuple(("const", x) for x in v.split("/") if x))
            return (".", tuple(("const", x) for x in v.split("/") if x))
        same = self.by_equality(st, t, depth)
        if same is not None:
            return same
        if t in self.open_phis:
            return ("*", (("safe", t),))
        if t.op == "phi":
            leaves = self.eng.phi_leaves(t)
            ps = {self.place(st, x, depth + 1)[0] for x in leaves}
            if len(ps) == 1 and leaves:
                return (ps.pop(), tuple([("phi", t)]) if any(self.place(st, x, depth + 1)[1] for x in leaves) else ())
            raise Unclear("the alternatives of %s" % t)
        if is_call(t, "os.path.join"):
            xs = t.args[2]
            anchor, comps = self.place(st, xs[0], depth + 1)
            for x in xs[1:]:
                anchor, comps = self.append(st, anchor, comps, x)
            return anchor, comps
        if t.op == "bin" and t.args[0] == "+":
            return self.concat(st, [t.args[1], t.args[2]], depth)
        if t.op == "fmt":
            return self.concat(st, list(t.args[0]), depth)
        if is_call(t, ".join") and t.args[1] is not None and is_const(t.args[1]) and cval(t.args[1]) in TEXT:
            items = self.eng.known_items(st, t.args[2][0])
            if items:
                anchor, comps = self.place(st, items[0], depth + 1)
                for x in items[1:]:
                    if not (self.sepfree(st, x) or self.relative(st, x)):
                        comps += (("rel", x),)      # "//x" stays below
                    else:
                        anchor, comps = self.append(st, anchor, comps, x)
                return anchor, comps
        if is_call(t, "os.path.dirname") or t.op == "item" and is_call(t.args[0], "os.path.split") and cval(t.args[1]) == 0:
            x = t.args[2][0] if t.op == "call" else t.args[0].args[2][0]
            anchor, comps = self.place(st, x, depth + 1)
            if not comps:
                raise Open(t)
            if comps[-1][0] in ("rel", "phi", "safe"):
                return anchor, comps
            return anchor, comps[:-1]
        if is_call(t, *NORMAL):
            return self.normal(st, t, depth)
        if is_call(t, ".rstrip", ".strip") and t.args[2] in ((const("/"),), (const(b"/"),)) and is_call(t, ".rstrip"):
            return self.place(st, t.args[1], depth + 1)
        if t.op in ("sym", "elem") or not self.tainted(t):
            raise Open(t)
        if is_call(t, ".lstrip", ".strip", ".replace", "os.path.basename", "os.path.expanduser", "os.path.relpath") or t.op == "item":
            raise Open(t)
        raise Unclear(t)

    def by_equality(self, st, t, depth):
        for k, v in self.facts.items():
            if v is True and k.op == "cmp" and k.args[0] == "eq":
                for a, b in ((k.args[1], k.args[2]), (k.args[2], k.args[1])):
                    parent = is_call(b, "os.path.dirname") and self.unwrap(b.args[2][0]) is t or b.op == "item" and is_call(
                        b.args[0], "os.path.split") and cval(b.args[1]) == 0 and self.unwrap(b.args[0].args[2][0]) is t
                    if parent:
                        x = call("os.path.basename", None, (t,))
                        for y in (x, mk("item", call("os.path.split", None, (t,)), const(1))):
                            if y in {s for f in self.facts for s in subterms(f)}:
                                x = y
                        anchor, comps = self.place(st, a, depth + 1)
                        return anchor, comps + (("name", x),)
                    if self.unwrap(b) is t and a is not t and not self.tainted(a):
                        return self.place(st, a, depth + 1)
        return None

    def append(self, st, anchor, comps, x):
        u = self.unwrap(x)
        if is_const(u) and isinstance(cval(u), (str, bytes)):
            if cval(u)[:1] in TEXT:
                return self.place(st, u)
            v = cval(u) if isinstance(cval(u), str) else cval(u).decode("utf-8", "replace")
            return anchor, comps + tuple(("const", y) for y in v.split("/") if y)
        if u.op == "phi":
            for y in self.eng.phi_leaves(u):
                if not (self.sepfree(st, y) and self.nodots(st, y)):
                    raise Open(y)
            return anchor, comps + (("name", u),)
        if u.op == "star":
            return anchor, comps + self.starred(st, u.args[0])
        if self.sepfree(st, u):
            return anchor, comps + (("name", u),)
        if self.relative(st, u):
            return anchor, comps + (("rel", u),)
        if is_call(u, "os.path.join"):
            for y in u.args[2]:
                anchor, comps = self.append(st, anchor, comps, y)
            return anchor, comps
        if not self.tainted(u):
            raise Unclear(u)
        raise Open(u)

    def starred(self, st, x):
        """Components that are the elements of a collection."""
        o = self.eng.obj(st, x) if x.op == "ref" else None
        if o is None:
            if self.splits(x):
                return (("rel", x.args[1]),)        # an empty first element, of an absolute path, is put in the middle
            raise Unclear(x)
        xs = o.items if o.items is not None and not isinstance(o.items, dict) else o.taint
        refused = self.facts.get(mk("cmp", "in", const(".."), x)) is False
        for y in xs:
            y = self.strip(y)
            if not self.sepfree(st, y) or not refused and not self.nodots(st, y):
                raise Open(y)
        return (("safe", x),)

    def splits(self, x):
        return is_call(x, ".split") and x.args[2] == (const("/"),)

    def concat(self, st, parts, depth):
        """Text put together; groups of parts between separators are components."""
        first = parts[0]
        if is_const(first) and isinstance(cval(first), (str, bytes)) and str(cval(first)).startswith("/"):
            groups, anchor, comps = [[]], None, ()
        else:
            anchor, comps = self.place(st, first, depth + 1)
            if len(parts) == 1:
                return anchor, comps
            parts = parts[1:]
            second = parts[0]
            if not (is_const(second) and str(cval(second))[:1] == "/" or isinstance(second, T) and is_const(second) and cval(second) == b"/"):
                # an extension of the last component
                n = 0
                while n < len(parts) and self.sepfree(st, parts[n]):
                    n += 1
                more, parts = parts[:n], parts[n:]
                if not comps or not more or parts and not (is_const(parts[0]) and str(cval(parts[0])).startswith("/")):
                    raise Open(second)
                kind, x = comps[-1]
                if kind == "const":
                    comps = comps[:-1] + ((("const", x + "".join(str(cval(y)) for y in more)) if all(is_const(y) for y in more)
                                           else ("name", mk("fmt", (const(x),) + tuple(more)))),)
                elif kind == "name":
                    comps = comps[:-1] + (("name", mk("fmt", (x,) + tuple(more))),)
                elif kind in ("safe", "phi") and not any(is_const(y) and set(str(cval(y))) - {"."} for y in more):
                    raise Open(more[0])
            groups = [[]]
        for x in parts:
            if is_const(x) and isinstance(cval(x), (str, bytes)):
                v = cval(x) if isinstance(cval(x), str) else cval(x).decode("utf-8", "replace")
                bits = v.split("/")
                groups[-1].append(const(bits[0])) if bits[0] else None
                for b in bits[1:]:
                    groups.append([const(b)] if b else [])
            else:
                groups[-1].append(x)
        if anchor is None:
            lead = []
            gs = [g for g in groups if g]
            while gs and len(gs[0]) == 1 and is_const(gs[0][0]):
                lead.append(str(cval(gs.pop(0)[0])))
            anchor, comps = self.place(st, const("/" + "/".join(lead)), depth + 1)
            groups = gs
        for g in groups:
            if not g:
                continue
            if len(g) == 1:
                x = self.unwrap(g[0])
                if is_const(x):
                    comps += (("const", str(cval(x))),)
                elif self.sepfree(st, x):
                    comps += (("name", x),)
                else:
                    comps += (("rel", x),)      # a leading separator is preceded by one: no reset in a concatenation
            else:
                x = mk("fmt", tuple(g))
                if all(self.sepfree(st, y) for y in g):
                    comps += (("name", x),)
                else:
                    for y in g:
                        if not self.sepfree(st, y) and not self.nodots(st, y):
                            raise Open(y)
                    # the ends of the parts may meet in a component
                    raise Open(x)
        return anchor, comps

    def normal(self, st, t, depth):
        x = t.args[2][0]
        for k, v in self.facts.items():
            if v is not True:
                continue
            if k.op == "call" and k.args[0] == ".startswith" and k.args[1] is not None and self.unwrap(k.args[1]) is t and len(k.args[2]) == 1:
                root = self.rooted(st, k.args[2][0])
                if root is not None:
                    return root[0], root[1] + (("safe", t),)
            if k.op == "cmp" and k.args[0] == "eq":
                for a, b in ((k.args[1], k.args[2]), (k.args[2], k.args[1])):
                    if is_call(b, "os.path.commonpath"):
                        items = self.eng.known_items(st, b.args[2][0]) or ()
                        if t in items and a in items:
                            anchor, comps = self.place(st, a, depth + 1)
                            return anchor, comps + (("safe", t),)
        anchor, comps = self.place(st, x, depth + 1)
        return anchor, comps

    def rooted(self, st, t):
        """The folder whose path followed by a separator is t."""
        if t.op == "bin" and t.args[0] == "+" and t.args[2] is const("/"):
            return self.place(st, t.args[1])
        if t.op == "fmt" and is_const(t.args[0][-1]) and str(cval(t.args[0][-1])) == "/" and len(t.args[0]) == 2:
            return self.place(st, t.args[0][0])
        if is_call(t, "os.path.join") and t.args[2][-1] is const(""):
            xs = t.args[2][:-1]
            return self.place(st, xs[0] if len(xs) == 1 else call("os.path.join", None, xs))
        return None

    def tainted(self, t):
        return any(str(x.args[0]).startswith("request:") for x in t.atoms if x.op == "sym") or any(
            x.op == "sym" and str(x.args[0]).startswith("request:") for x in subterms(t))

    # -------------------------------------------------------------- verdict
    def inside(self, st, t):
        """(anchor, components) of a path that stays below its anchor's constant folders; raises Open or Unclear."""
        self.facts = {self.strip(k): v for k, v in st.facts.items()}
        u = t = self.strip(t)
        if u.op == "phi":
            r = None
            if u in self.open_phis:
                return ("*", (("safe", u),))
            self.open_phis.add(u)
            try:
                ps = [self.inside(st, x) for x in self.eng.phi_leaves(u)]
            finally:
                self.open_phis.discard(u)
            for p in ps:
                if p[0] == "*":
                    continue
                if r is not None and (p[0], self.lead(p[1])) != (r[0], self.lead(r[1])):
                    raise Unclear("the alternatives of %s" % t)
                r = p
            if r is None:
                raise Unclear(t)
            return r
        anchor, comps = self.place(st, t)
        for kind, x in comps:
            if kind == "const" and x == "..":
                raise Open(const(x))
            if kind in ("name", "rel") and not self.nodots(st, x):
                raise Open(x)
            if kind == "phi":
                raise Unclear(x)
        return anchor, comps

    def lead(self, comps):
        """The constant folders at the start."""
        r = []
        for kind, x in comps:
            if kind != "const":
                break
            r.append(x)
        return tuple(r)

    def inside_or_none(self, st, t):
        try:
            return self.inside(st, t)
        except (Open, Unclear):
            return None
