"""Abstract machine state (copy on write)."""

from .terms import T


class HObj(object):
    """A heap object.  Immutable: every change makes a new one."""

    __slots__ = ("kind", "cls", "items", "rest", "taint", "elem", "made", "_k", "_terms")

    def __init__(self, kind, cls=None, items=None, rest=False, taint=frozenset(), elem=None, made=None):
        self.kind = kind      # inst list dict set gen ext
        self.cls = cls
        self.items = items    # inst/ext/dict: {key: T}; list/set: tuple or None (unknown)
        self.rest = rest      # further unknown entries / fields
        self.taint = taint    # terms that were put into an unknown list/dict/set
        self.elem = elem      # how to make an unknown entry (callable name)
        self.made = made      # the condition its elements were selected by, until it is changed
        self._k = None
        self._terms = None

    def key(self):
        if self._k is None:
            it = self.items
            if isinstance(it, dict):
                it = frozenset(it.items())
            self._k = (self.kind, self.cls, it, self.rest, self.taint, self.made)
        return self._k

    def with_(self, **kw):
        d = dict(kind=self.kind, cls=self.cls, items=self.items, rest=self.rest, taint=self.taint, elem=self.elem)
        d.update(kw)
        return HObj(**d)

    def set_item(self, k, v):
        items = dict(self.items)
        items[k] = v
        return self.with_(items=items)

    def del_item(self, k):
        items = dict(self.items)
        items.pop(k, None)
        return self.with_(items=items)

    def terms(self):
        if self._terms is None:
            out = []
            if isinstance(self.items, dict):
                for k, v in self.items.items():
                    if isinstance(k, T):
                        out.append(k)
                    if isinstance(v, T):
                        out.append(v)
            elif self.items:
                out.extend(x for x in self.items if isinstance(x, T))
            out.extend(self.taint)
            self._terms = out
        return self._terms


class State(object):
    __slots__ = ("frames", "cur", "heap", "facts", "held", "mon", "excs", "pend", "trace")

    def __init__(self):
        self.frames = {}
        self.cur = None
        self.heap = {}
        self.facts = {}
        self.held = ()
        self.mon = {}
        self.excs = ()
        self.pend = ()
        self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.frames = self.frames
        s.cur = self.cur
        s.heap = self.heap
        s.facts = self.facts
        s.held = self.held
        s.mon = self.mon
        s.excs = self.excs
        s.pend = self.pend
        s.trace = self.trace
        return s

    def key(self, facts=True):
        return (
            self.cur,
            frozenset((f, frozenset(v.items())) for f, v in self.frames.items()),
            frozenset((a, o.key()) for a, o in self.heap.items()),
            frozenset(self.facts.items()) if facts else None,
            self.held,
            frozenset(self.mon.items()),
            self.excs,
            self.pend,
        )

    # -- frames
    def setvar(self, fid, name, val):
        s = self.copy()
        s.frames = dict(self.frames)
        f = dict(s.frames.get(fid, {}))
        f[name] = val
        s.frames[fid] = f
        return s

    def delvar(self, fid, name):
        s = self.copy()
        s.frames = dict(self.frames)
        f = dict(s.frames.get(fid, {}))
        f.pop(name, None)
        s.frames[fid] = f
        return s

    def with_cur(self, fid):
        s = self.copy()
        s.cur = fid
        return s

    # -- heap
    def setobj(self, addr, obj):
        s = self.copy()
        s.heap = dict(self.heap)
        s.heap[addr] = obj
        return s

    # -- facts
    def setfact(self, t, v):
        if self.facts.get(t) is v:
            return self
        s = self.copy()
        s.facts = dict(self.facts)
        s.facts[t] = v
        return s

    def setmon(self, **kw):
        s = self.copy()
        s.mon = dict(self.mon)
        for k, v in kw.items():
            if v is None:
                s.mon.pop(k, None)
            else:
                s.mon[k] = v
        return s

    def log(self, text):
        s = self.copy()
        s.trace = (self.trace, text)
        return s

    def path(self, n=60):
        out = []
        t = self.trace
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        return out[::-1]
