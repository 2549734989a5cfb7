"""The abstract interpreter: program loading, heap, merging, entry points."""

import ast
import sys

from .terms import T, mk, const, is_const, cval, is_call, ext, ref, subterms, NONE, TRUE, FALSE
from .state import HObj, State
from .program import AnalysisError, Func, Class, load_modules, digest, builtin_exc, EXT_EXC, canon_exc
from .facts import Facts, rename
from .exprs import Exprs
from .calls import Calls
from .stmts import Stmts, Out
from . import models

sys.setrecursionlimit(20000)

SAFE_ITER = set(".items .values .keys .split .splitlines .rsplit .partition .rpartition sorted range enumerate zip list "
                "tuple reversed set dir vars filter map iter .readlines itertools.chain dict .copy shlex.split "
                "itertools.zip_longest str bytes os.listdir .get .setdefault .pop socket.getaddrinfo "
                "select.select .poll".split())


class Monitor(object):
    """What a check observes and decides.  Every hook may be overridden."""

    name = "?"

    # answering
    def rettype(self, name, t):
        return None

    def decide(self, eng, st, t):
        return None

    def assumed(self, eng, st, t, val):
        return st

    def rebind(self, eng, st, atom):
        return st

    def widened(self, eng, st, old, new):
        """In a loop, a variable's value (old) is from now on called new."""
        return st

    def keep(self, fact):
        return False

    # events; None means "go on as usual"
    def at(self, eng, st, node):
        return None

    def getattr(self, eng, st, b, name, node):
        return None

    def store(self, eng, st, b, name, v, node, out):
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        return None

    def recursive(self, eng, st, qual, args, kwargs, node):
        return None

    def returned(self, eng, st, qual, args, v, node):
        return None

    def raised(self, eng, st, qual, args, exc, node):
        return st

    def lazy(self, eng, st, b, cls, name):
        return None

    def unknown_entry(self, eng, st, b, o, k, node):
        return st, mk("item", b, k)

    def unknown_elem(self, eng, st, it, el, node):
        return st, el

    def thread_start(self, eng, st, b, node):
        return None

    def getitem(self, eng, st, b, k, node, out):
        return None

    def setitem(self, eng, st, b, k, v, node, out):
        return None

    def delitem(self, eng, st, b, k, node, out):
        return None

    def is_lock(self, eng, st, v):
        return False

    def acquire(self, eng, st, lock, node):
        return st

    def release(self, eng, st, lock, node):
        return st

    def caught(self, eng, st, exc, handler, node):
        return None

    def raising(self, eng, st, name, node, origin):
        return True

    def iterate(self, eng, st, it, el, node):
        return st

    # whether it also watches the loading of modules
    loads = False
    whole = ()  # terms whose attributes are all known to the monitor

    def environ(self, eng, st, args, kwargs):
        """The value of an environment variable (or the default)."""
        return None

    def backedge(self, eng, st, node):
        return st

    def assert_holds(self, eng, st, node):
        return False

    # what may raise
    def raises(self, eng, st, name, base, args, kwargs):
        return None

    def pure(self, name):
        return False

    def subscript_raises(self, eng, st, b, k):
        return False

    def attribute_raises(self, eng, st, b, name):
        return False

    def division_raises(self, eng, st, b):
        return True

    def star_raises(self, eng, st, qual):
        return False

    def len_raises(self, eng, st, x):
        return False

    def sort_raises(self, eng, st, x):
        return False

    def dict_raises(self, eng, st, a):
        return False

    def unpack_raises(self, eng, st, v, n, node):
        return False

    def items_of(self, eng, st, v):
        return None

    def iter_raises(self, eng, st, it):
        """False, True, or the name of what going through this may raise."""
        return it.op == "call" and it.args[4] is not None and it.args[0] not in SAFE_ITER


class Engine(Facts, Exprs, Calls, Stmts):

    def __init__(self, monitor=None, repo=None):
        self.mon = monitor or Monitor()
        self.mods = load_modules(repo)
        self.digest = digest(self.mods)
        self.modenv = {}
        self.base_heap = {}
        self.funcs = {}
        self.classes = {}
        self.defaults = {}
        self.stats = {"functions": set(), "external": set(), "steps": 0}
        self.phi_alts = {}
        self.yield_hooks = []
        self.recursion = 1
        self.strict_attrs = False
        self.max_steps = 3000000
        self._mro = {}
        self._anc = {}
        self.rounds = {}
        self.loading = {}
        self._load_all()

    # -------------------------------------------------------------- loading
    def _load_all(self):
        mon = self.mon
        self.mon = mon if mon.loads else Monitor()
        try:
            for name in sorted(self.mods):
                self.load_module(name)
        finally:
            self.mon = mon
        # class-level dictionaries that start out empty are filled by somebody
        for c in self.classes.values():
            for v in c.attrs.values():
                o = self.base_heap.get(v.args[0]) if v.op == "ref" else None
                if o is not None and o.kind == "dict" and not o.items:
                    self.base_heap[v.args[0]] = o.with_(rest=True)
        self.stats["functions"].clear()
        self.stats["external"].clear()

    def load_module(self, name):
        if name in self.modenv or name in self.loading:
            return
        pkg = name.rpartition(".")[0]
        if pkg and pkg in self.mods:
            self.load_module(pkg)
            if name in self.modenv:
                return
        self.loading[name] = {}
        mod = self.mods[name]
        st = State()
        fid = "mod:" + name
        st.frames = {fid: {"@func": None, "@mod": name, "__name__": const(name)}}
        st.cur = fid
        out = self.newout()
        cur = [st]
        for node in mod.tree.body:
            if name.endswith("__main__") and not isinstance(node, (ast.Import, ast.ImportFrom)):
                continue
            nxt = []
            for s in cur:
                nxt.extend(self.stmt(s, node, out))
            if not nxt:
                raise AnalysisError("module %s does not load past line %d" % (name, node.lineno))
            cur = self.dedupe(nxt)
            self.loading[name] = cur[0].frames[fid]
        env = {}
        names = []
        for s in cur:
            for n in s.frames[fid]:
                if n not in names:
                    names.append(n)
        for n in names:
            if n.startswith("@"):
                continue
            vals = []
            for s in cur:
                v = s.frames[fid].get(n)
                if v is not None and v not in vals:
                    vals.append(v)
            env[n] = vals[0] if len(vals) == 1 else self.join_vals(vals, fid, n)
        for s in cur:
            self.base_heap.update(s.heap)
        self.modenv[name] = env
        self.loading.pop(name, None)

    def join_vals(self, vals, where, name):
        p = mk("phi", where, name)
        self.phi_alts.setdefault(p, set()).update(vals)
        return p

    def module_env(self, st, name):
        self.load_module(name)
        return self.modenv.get(name, {})

    # -------------------------------------------------------------- classes
    def mro(self, cid):
        if cid in self._mro:
            return self._mro[cid]
        if cid not in self.classes:
            return [cid]
        c = self.classes[cid]
        lists = []
        for b in c.bases:
            if b.op in ("class", "ext"):
                lists.append(list(self.mro(b.args[0])))
            elif b.op == "ntclass":
                lists.append(["tuple"])
        heads = [b.args[0] for b in c.bases if b.op in ("class", "ext")]
        res = [cid]
        seqs = lists + [heads]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            res.append(h)
            seqs = [[x for x in s if x != h] if h in s else s for s in seqs]
        self._mro[cid] = res
        return res

    def class_attr(self, cid, name):
        if cid not in self.classes:
            return None
        for c in self.mro(cid):
            k = self.classes.get(c)
            if k is not None and name in k.attrs:
                return k.attrs[name]
        return None

    def ext_bases(self, cid):
        return [c for c in self.mro(cid) if c not in self.classes and c != "object"]

    def is_enum_bases(self, c):
        return any(x in ("enum.Enum", "enum.IntEnum", "enum.IntFlag", "enum.Flag") for b in c.bases
                   if b.op in ("class", "ext") for x in self.mro(b.args[0]))

    def is_enum(self, cid):
        c = self.classes.get(cid)
        return c is not None and c.is_enum

    def is_exc(self, cid):
        return any(builtin_exc(canon_exc(x)) is not None or canon_exc(x) in EXT_EXC for x in self.ext_bases(cid))

    # ----------------------------------------------------------------- heap
    def obj(self, st, r):
        if r.op != "ref":
            return None
        a = r.args[0]
        o = st.heap.get(a)
        if o is None:
            o = self.base_heap.get(a)
        return o

    def new(self, st, o, node, hint=""):
        addr = (hint, self.uid(st, node) if st.cur else "root")
        r = ref(addr)
        if addr in st.heap and self.occurs(st, r):
            old = ref((hint, addr[1] + "~"))
            s = st.copy()
            s.heap = dict(s.heap)
            s.heap[old.args[0]] = s.heap.pop(addr)
            st = self.rename_atom(s, r, old, drop=False)
        if any(r in k.atoms for k in st.facts):
            st = st.copy()
            st.facts = {k: v for k, v in st.facts.items() if r not in k.atoms}
        return st.setobj(addr, o), r

    def occurs(self, st, atom):
        for fr in st.frames.values():
            for v in fr.values():
                if isinstance(v, T) and atom in v.atoms:
                    return True
        for o in st.heap.values():
            for v in o.terms():
                if atom in v.atoms:
                    return True
        for v in st.pend:
            if isinstance(v, T) and atom in v.atoms:
                return True
        return False

    def rename_atom(self, st, old, new, drop=True):
        """The value called old is from now on called new (everywhere)."""
        s = st.copy()
        frames = dict(s.frames)
        for fid, fr in s.frames.items():
            ch = {}
            for n, v in fr.items():
                if isinstance(v, T) and old in v.atoms:
                    ch[n] = rename(v, old, new)
            if ch:
                fr = dict(fr)
                fr.update(ch)
                frames[fid] = fr
        s.frames = frames
        heap = dict(s.heap)
        for a, o in s.heap.items():
            if any(old in v.atoms for v in o.terms()):
                it = o.items
                if isinstance(it, dict):
                    it = {(rename(k, old, new) if isinstance(k, T) else k): rename(v, old, new) for k, v in it.items()}
                elif it is not None:
                    it = tuple(rename(v, old, new) for v in it)
                heap[a] = o.with_(items=it, taint=frozenset(rename(v, old, new) for v in o.taint))
        s.heap = heap
        s.pend = tuple(rename(v, old, new) if isinstance(v, T) else v for v in s.pend)
        facts = {}
        for k, v in s.facts.items():
            if drop and new in k.atoms:
                continue
            facts[rename(k, old, new) if old in k.atoms else k] = v
        s.facts = facts
        return self.mon_rename(s, old, new)

    def mon_rename(self, st, old, new):
        def rec(x):
            if isinstance(x, T):
                return rename(x, old, new) if old in x.atoms else x
            if isinstance(x, tuple):
                return tuple(rec(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(rec(y) for y in x)
            return x

        m = {k: rec(v) for k, v in st.mon.items()}
        if m != st.mon:
            st = st.copy()
            st.mon = m
        return st

    def purge(self, st, atom):
        """atom is being produced anew: what carried its name is the old value."""
        if self.occurs(st, atom):
            a = atom.args
            if atom.op == "call":
                if not str(a[4]).endswith("~"):
                    st = self.rename_atom(st, atom, mk("call", a[0], a[1], a[2], a[3], a[4] + "~"))
            elif atom.op == "elem":
                if not str(a[1]).endswith("~"):
                    st = self.rename_atom(st, atom, mk("elem", a[0], a[1] + "~"))
        drop = [k for k in st.facts if atom in k.atoms]
        if drop:
            s = st.copy()
            s.facts = {k: v for k, v in st.facts.items() if atom not in k.atoms}
            st = s
        return self.mon.rebind(self, st, atom)

    # ---------------------------------------------------------- collections
    def known_items(self, st, v):
        if v.op == "tuple":
            return v.args[0]
        if v.op == "nt":
            return v.args[2]
        if v.op == "ref":
            o = self.obj(st, v)
            if o is not None and o.kind == "list" and o.items is not None:
                return o.items
        return None

    def iter_items(self, st, v):
        k = self.mon.items_of(self, st, v)
        if k is not None:
            return k
        k = self.known_items(st, v)
        if k is not None:
            return k
        if v.op == "ref":
            o = self.obj(st, v)
            if o is not None:
                if o.kind == "set" and o.items is not None:
                    return o.items
                if o.kind == "dict" and not o.rest:
                    return tuple(o.items)
            return None
        if is_const(v):
            c = cval(v)
            if isinstance(c, str) and len(c) <= 40:
                return tuple(const(x) for x in c)
            if isinstance(c, bytes) and len(c) <= 40:
                return tuple(const(x) for x in c)
            return None
        if v.op == "class" and self.is_enum(v.args[0]):
            c = self.classes[v.args[0]]
            return tuple(c.attrs[m] for m in c.members)
        if v.op == "call":
            n, base, args = v.args[0], v.args[1], v.args[2]
            if n in (".keys", ".values", ".items") and base is not None and base.op == "ref":
                o = self.obj(st, base)
                if o is not None and o.kind == "dict" and not o.rest:
                    if n == ".keys":
                        return tuple(o.items)
                    if n == ".values":
                        return tuple(o.items.values())
                    return tuple(mk("tuple", (k, x)) for k, x in o.items.items())
            if n == "range" and args and all(is_const(a) for a in args):
                r = range(*[cval(a) for a in args])
                if len(r) <= 64:
                    return tuple(const(i) for i in r)
            if n == "enumerate" and args:
                sub = self.iter_items(st, args[0])
                if sub is not None and len(args) == 1:
                    return tuple(mk("tuple", (const(i), x)) for i, x in enumerate(sub))
            if n == "zip" and args:
                subs = [self.iter_items(st, a) for a in args]
                if all(s is not None for s in subs):
                    return tuple(mk("tuple", tuple(x)) for x in zip(*subs))
            if n in ("list", "tuple", "iter", "set", "reversed", "sorted") and args:
                sub = self.iter_items(st, args[0])
                if sub is not None:
                    if n == "reversed":
                        return tuple(reversed(sub))
                    if n == "sorted":
                        return self.sorted_items(sub) if not v.args[3] else None
                    return tuple(sub)
        return None

    @staticmethod
    def sorted_items(items):
        """Known items in sorted order, if that is known."""
        if len(items) < 2:
            return tuple(items)

        def key(x):
            if is_const(x):
                return cval(x)
            if x.op == "tuple" and x.args[0] and is_const(x.args[0][0]):
                return cval(x.args[0][0])
            raise TypeError

        try:
            ks = [key(x) for x in items]
            if len(set(ks)) < len(ks):
                return None
            return tuple(x for _, x in sorted(zip(ks, items), key=lambda p: p[0]))
        except TypeError:
            return None

    def iter_raises(self, st, it):
        if it.op == "call" and it.args[0] in ("enumerate", "zip", "list", "sorted", "reversed", "tuple", "iter"):
            for a in it.args[2]:
                r = self.iter_raises(st, a)
                if r:
                    return r
            return False
        return self.mon.iter_raises(self, st, it)

    def elem_choices(self, st, it, node):
        """[(element, state)] for one more element of an unknown iterable."""
        if it.op == "call":
            n, base, args = it.args[0], it.args[1], it.args[2]
            if n in (".values", ".items", ".keys") and base is not None and base.op == "ref":
                o = self.obj(st, base)
                if o is not None and o.kind == "dict":
                    res = []
                    for k, x in o.items.items():
                        e = {".keys": k, ".values": x, ".items": mk("tuple", (k, x))}[n]
                        res.append((e, st))
                    k, s = self._elem(st, mk("call", ".keys", base, (), (), None), node)
                    s = s.setfact(mk("cmp", "in", k, base), True)
                    if n == ".keys":
                        res.append((k, s))
                    else:
                        s, x = self.mon.unknown_entry(self, s, base, o, k, node)
                        res.append((x if n == ".values" else mk("tuple", (k, x)), s))
                    return res
            if n == "enumerate" and args:
                return [(mk("tuple", (mk("elem", mk("call", "range", None, (it,), (), None), self.uid(st, node)), e)), s)
                        for e, s in self.elem_choices(st, args[0], node)]
            if n in ("list", "iter", "sorted", "reversed", "tuple") and args and n != "sorted":
                return self.elem_choices(st, args[0], node)
            if n == "zip" and args:
                acc = [((), st)]
                for a in args:
                    nxt = []
                    for es, s in acc:
                        items = self.iter_items(s, a)
                        if items is not None:
                            if len(items) <= 12:
                                nxt.extend((es + (x,), s) for x in items)
                            else:
                                e, s2 = self._elem(s, a, node)
                                nxt.append((es + (e,), s2))
                        else:
                            nxt.extend((es + (x,), s2) for x, s2 in self.elem_choices(s, a, node))
                    acc = nxt
                return [(mk("tuple", es), s) for es, s in acc]
        el, s = self._elem(st, it, node)
        s, el = self.mon.unknown_elem(self, s, it, el, node)
        return [(el, s)]

    def _elem(self, st, it, node):
        el = mk("elem", it, self.uid(st, node))
        st = self.purge(st, el)
        st = self.forall_facts(st, it, el)
        st = st.setfact(mk("cmp", "in", el, it), True)
        return el, st

    def elem_of(self, st, it, node):
        return self._elem(st, it, node)

    def as_generator(self, st, v):
        o = self.obj(st, v) if v.op == "ref" else None
        if o is not None and o.kind == "gen" and o.cls == "gen":
            return o.items["f"], o.items["a"].args[0], o.items["k"].args[0]
        return None

    def collect(self, st, v, node, out):
        f, args, kwargs = self.as_generator(st, v)
        fn = self.funcs[f.args[0]]
        st, lst = self.new(st, HObj("list", items=()), node, "collected")
        caller = st.cur
        inner = self.newout()
        entries = self.enter(st, f, args, kwargs, node, out)
        if not entries:
            return []
        fid = entries[0].cur

        def hook(s, value, ynode, gout):
            return [(z, NONE) for z, _ in self.call_method(s, lst, "append", (value,), (), node, gout, None)]

        self.stats["functions"].add(f.args[0])
        self.yield_hooks.append(hook)
        try:
            for s in self.block(entries[0], fn.node.body, inner):
                inner.rets.append((s, NONE))
        finally:
            self.yield_hooks.pop()
        out.exits.extend(inner.exits)
        out.raises.extend((self.exit_frame(s, fid, caller, fn), x) for s, x in inner.raises)
        return self.merge_vals([(self.exit_frame(s, fid, caller, fn), lst) for s, _ in inner.rets])

    # -------------------------------------------------------------- merging
    def merge_vals(self, pairs):
        if len(pairs) < 2:
            return pairs
        seen = {}
        for s, v in pairs:
            seen.setdefault((s.key(), v), (s, v))
        pairs = list(seen.values())
        if len(pairs) > 48:
            groups = {}
            for s, v in pairs:
                groups.setdefault((s.key(facts=False), v), []).append(s)
            pairs = [(s, v) for (k, v), ss in groups.items() for s in self.common(ss)]
        if len(pairs) > 3000:
            raise AnalysisError("too many outcomes")
        return pairs

    def merge_raises(self, pairs):
        if len(pairs) < 2:
            return pairs
        seen = {}
        for s, x in pairs:
            seen.setdefault((s.key(), x), (s, x))
        pairs = list(seen.values())
        if len(pairs) > 48:
            groups = {}
            for s, x in pairs:
                groups.setdefault((s.key(facts=False), x), []).append(s)
            pairs = [(s, x) for (k, x), ss in groups.items() for s in self.common(ss)]
        if len(pairs) > 96:
            # same exception from different places
            groups = {}
            for s, x in pairs:
                y = (x[0], x[1], x[2], mk("exc", x[0], x[1], "*", None))
                groups.setdefault((s.key(facts=False), y), []).append(s)
            pairs = [(s, x) for (k, x), ss in groups.items() for s in self.common(ss)]
        if len(pairs) > 300:
            groups = {}
            for s, x in pairs:
                s = self.gc(s, [x[3]])
                groups.setdefault((s.key(facts=False), x), []).append(s)
            pairs = [(s, x) for (k, x), ss in groups.items() for s in self.common(ss)]
        if len(pairs) > 3000:
            # of many states the same exception may be raised in, some
            groups = {}
            for s, x in pairs:
                groups.setdefault((x, s.cur, s.held, frozenset(s.mon.items())), []).append(s)
            pairs = [(s, x) for (x, _, _, _), ss in groups.items() for s in ss[:40]]
        if len(pairs) > 3000:
            raise AnalysisError("too many exceptional outcomes")
        return pairs

    def common(self, states):
        if len(states) <= 2:
            return states
        c = dict(states[0].facts)
        for o in states[1:]:
            c = {a: b for a, b in c.items() if o.facts.get(a) == b}
        s = states[0].copy()
        s.facts = c
        return [s]

    def squash(self, states):
        states = [self.gc(s, []) for s in states]
        groups = {}
        for s in states:
            groups.setdefault(s.key(facts=False), []).append(s)
        res = []
        for ss in groups.values():
            res.extend(self.common(ss) if len(ss) > 2 else ss)
        return res

    def gc(self, st, roots):
        """Forget heap objects and facts about values nothing refers to any more."""
        live = set()
        work = []

        def add(t):
            if isinstance(t, T):
                for a in t.atoms:
                    if a not in live:
                        live.add(a)
                        work.append(a)
            elif isinstance(t, (tuple, frozenset)):
                for x in t:
                    add(x)

        for fr in st.frames.values():
            for v in fr.values():
                add(v)
        for v in roots:
            add(v)
        add(st.pend)
        for x in st.excs:
            add(x[3])
        for v in st.mon.values():
            add(v)
        for x in st.held:
            add(x)
        for addr, o in st.heap.items():
            if not (isinstance(addr, tuple) and addr[0] in ("attrs",)) and not addr in self.base_heap:
                continue
            for t in o.terms():
                add(t)
        while work:
            a = work.pop()
            if a.op == "ref":
                o = st.heap.get(a.args[0]) or self.base_heap.get(a.args[0])
                if o is not None:
                    for t in o.terms():
                        add(t)
            # arguments inside an atom
            for x in a.args:
                add(x) if not (isinstance(x, T) and x is a) else None
        heap = {}
        for addr, o in st.heap.items():
            if addr in self.base_heap or (isinstance(addr, tuple) and addr[0] in ("attrs", "kw")) or ref(addr) in live:
                heap[addr] = o
        facts = {k: v for k, v in st.facts.items() if all(a in live for a in k.atoms) or self.mon.keep(k)}
        if len(heap) == len(st.heap) and len(facts) == len(st.facts):
            return st
        s = st.copy()
        s.heap = heap
        s.facts = facts
        return s

    # ---------------------------------------------------------------- locks
    def acquire(self, st, lock, node, args=(), kwargs=()):
        s = self.mon.acquire(self, st, lock, node)
        if s is None:
            return []
        s = s.copy()
        s.held = s.held + (lock,)
        return [s]

    def release(self, st, lock, node):
        s = self.mon.release(self, st, lock, node)
        if s is None:
            return []
        if lock in s.held:
            i = len(s.held) - 1 - s.held[::-1].index(lock)
            s = s.copy()
            s.held = s.held[:i] + s.held[i + 1:]
        return [s]

    # --------------------------------------------------------- entry points
    def start(self, module="dataplicity"):
        st = State()
        st.frames = {"root": {"@func": None, "@mod": module}}
        st.cur = "root"
        return st

    NODE = ast.parse("entry()").body[0].value

    def invoke(self, st, f, args=(), kwargs=()):
        """Call value f; an Out with rets/raises/exits."""
        out = self.newout()
        out.rets.extend(self.call_value(st, f, tuple(args), tuple(kwargs), self.NODE, out))
        out.raises[:] = self.merge_raises(out.raises)
        return out

    def invoke_method(self, st, self_, name, args=(), kwargs=(), step=None):
        """Call a method; a step of its own keeps the objects it makes apart from those of other steps."""
        out = self.newout()
        node = self.NODE
        if step is not None:
            node = ast.parse("\n" * step + "entry()").body[0].value
        for s, f in self.getattr_(st, self_, name, node, out):
            out.rets.extend(self.call_value(s, f, tuple(args), tuple(kwargs), node, out))
        out.rets[:] = self.merge_vals(out.rets)
        out.raises[:] = self.merge_raises(out.raises)
        return out

    def find_class(self, name, module=None):
        """Class id by name; module is the usual place, any unique other will do."""
        if module and "%s:%s" % (module, name) in self.classes:
            return "%s:%s" % (module, name)
        c = [x for x in self.classes if x.split(":")[1] == name]
        if len(c) == 1:
            return c[0]
        if not c:
            raise AnalysisError("class %s not found" % name)
        raise AnalysisError("class %s is ambiguous" % name)

    def find_func(self, name, module=None):
        q = "%s:%s" % (module, name)
        if q in self.funcs:
            return q
        c = [x for x in self.funcs if x.split(":")[1] == name]
        if len(c) == 1:
            return c[0]
        if not c:
            raise AnalysisError("function %s not found" % name)
        raise AnalysisError("function %s is ambiguous" % name)

    def global_value(self, module, name):
        env = self.modenv.get(module, {})
        if name in env:
            return env[name]
        raise AnalysisError("%s.%s not found" % (module, name))

    def method(self, cid, name):
        """(func term, defining class)"""
        for c in self.mro(cid):
            k = self.classes.get(c)
            if k is not None and name in k.attrs:
                return k.attrs[name]
        raise AnalysisError("method %s.%s not found" % (cid, name))
