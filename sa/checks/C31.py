"""A closed channel is silent, and channel data stays in order."""

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, ext
from ..engine import Monitor
from ..world import make, is_log, const_of
from ..state import HObj
from ..linear import poly, sub

CLIENT = "dataplicity.m2m.wsclient"
ATOMIC = "a channel does not close between the look at it and the sending"
CB = {"data": sym("data_cb"), "close": sym("close_cb"), "control": sym("control_cb")}


class Channel(Monitor):

    def __init__(self, ctx):
        self.ctx = ctx
        self.deque = None
        self.me = None
        self.flags = ()
        self.stores = {}
        self.in_parts = False

    # mon.look: locks held since it was looked whether the channel has closed
    def getattr(self, eng, st, b, name, node):
        if b is self.me and name in self.flags:
            return [(st.setmon(look=tuple(st.held)), eng.obj(st, b).items[name])]
        return None

    def store(self, eng, st, b, name, v, node, out):
        if b is self.me:
            self.stores.setdefault(name, []).append((eng.loc(st, node), frozenset(st.held)))
        return None

    def release(self, eng, st, lock, node):
        look = st.mon.get("look")
        if look and lock in look:
            st = st.setmon(look=tuple(x for x in look if x is not lock))
        return st

    def sent(self, eng, st, what, node):
        """Something is sent on the open channel; the channel may not close in between."""
        if not self.flags:
            return
        for name in self.flags:
            for where, held in self.stores.get(name, ()):
                self.ctx.count("sendings against closings")
                self.ctx.check(held & set(st.mon.get("look", ())), ATOMIC, eng.loc(st, node), "%s may happen after the channel has "
                               "closed, at %s, since it was looked whether it had" % (what.lstrip("."), where), st.path(), key=what)

    def raises(self, eng, st, name, base, args, kwargs):
        if base is sym("client") or (base is not None and base.op == "attr" and base.args[0] is sym("client")):
            return []
        return None

    def note(self, st, *e):
        return st.setmon(events=st.mon.get("events", ()) + (e,))

    def whole(self, t):
        """t is one of the parts of something in a loop over all of them: d[i:i + n] for i in range(0, len(d), n)."""
        d, i, j, k = t.args
        if i.op != "elem" or not is_call(i.args[0], "range", "xrange") or k not in (NONE, const(1)):
            return False
        r = i.args[0].args[2]
        good = len(r) == 3 and r[0] is const(0) and is_call(r[1], "len") and r[1].args[2] == (d,) and not sub(sub(poly(j), poly(i)), poly(r[2]))
        if good:
            self.in_parts = True        # and nothing is sent of nothing
        return good

    def call(self, eng, st, name, base, args, kwargs, node):
        vals = tuple(args) + tuple(v for _, v in kwargs)
        if base is not None and any(x is sym("client") for x in subterms(base)):
            self.sent(eng, st, name, node)
            if any(v.op == "slice" for v in vals):
                # in parts, one after the other: noted once
                vals = tuple(v if v.op != "slice" else v.args[0] if self.whole(v) else mk("slice", v.args[0], NONE, NONE, NONE) for v in vals)
                if ("client", name, vals) in st.mon.get("events", ()):
                    return [("cont", st)]
            return [("cont", self.note(st, "client", name, vals))]
        if name == "call" and base in CB.values():
            return [("cont", self.note(st, "callback", base.args[0], vals))]
        if base is not None and base is self.deque and name in (
                ".append", ".appendleft", ".extend", ".insert", ".extendleft"):
            return [("cont", self.note(st, "queue", name, vals))]
        if base is not None and name in (".set", ".clear") and base.op == "ref" and base is not self.deque:
            return [("cont", self.note(st, "event", name))]
        return None


class Read(Monitor):
    """One iteration of reading from the queue."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.deque = None

    def head(self, eng, st, node):
        h = st.mon.get("cur")
        if h is not None and not (st.mon.get("popped") and st.mon.get("back") is None):
            return st, (st.mon.get("back") or h)
        if h is not None:
            st = self.settle(eng, st, node)
        t = call("head", None, (), (), eng.uid(st, node))
        st = eng.purge(st, t)
        return st.setmon(cur=t, out=None, popped=None, back=None), t

    def getitem(self, eng, st, b, k, node, out):
        if b is self.deque:
            if k is not const(0):
                self.ctx.bad("queued data is read from the front", eng.loc(st, node), "data is read at %s" % (k,),
                             st.path())
                return None
            if eng.decide(st, b) is not True:
                eng.raise_(st, out, "IndexError", True, node)
            self.ctx.count("reads of the queue")
            st, h = self.head(eng, st, node)
            return [(st, h)]
        return None

    def setitem(self, eng, st, b, k, v, node, out):
        if b is self.deque:
            self.ctx.check(k is const(0) and st.mon.get("cur") is not None, "queued data is read from the front",
                           eng.loc(st, node), "an item of the queue is replaced", st.path())
            return [st.setmon(back=v, popped=1).setfact(b, True)]
        return None

    def delitem(self, eng, st, b, k, node, out):
        if b is self.deque:
            self.ctx.check(k is const(0), "queued data is read from the front", eng.loc(st, node),
                           "an item of the queue is deleted")
            return [self.pop(eng, st)]
        return None

    def pop(self, eng, st):
        st = st.setmon(popped=1)
        return eng.mutated(st, self.deque)

    def call(self, eng, st, name, base, args, kwargs, node):
        if base is not None and base is self.deque and name.startswith("."):
            if name == ".popleft":
                if eng.decide(st, base) is not True:
                    self.ctx.ok("queue may be empty", eng.loc(st, node))
                if st.mon.get("popped") and st.mon.get("back") is None:
                    st = self.settle(eng, st, node)
                self.ctx.count("reads of the queue")
                st, h = self.head(eng, st, node)
                if st.mon.get("back") is not None:
                    st = st.setmon(cur=st.mon["back"], back=None, out=None)
                return [("ret", self.pop(eng, st), h)]
            if name == ".appendleft":
                return [("ret", eng.mutated(st.setmon(back=args[0]), base).setfact(base, True), NONE)]
            self.ctx.check(name in (".__len__", ".copy", ".count", ".__bool__"), "queued data is read from the front",
                           eng.loc(st, node), "%s() is called on the queue" % name, st.path())
            return None
        if name in (".append", ".extend", ".write") and args and st.mon.get("cur") is not None:
            if any(x is st.mon["cur"] for x in subterms(args[0])):
                return [("cont", st.setmon(out=(st.mon.get("out") or ()) + (args[0],)))]
        if name == ".clear" and base is not None and base is not self.deque:
            self.ctx.count("event cleared")
            self.ctx.check(eng.decide(st, self.deque) is False, "data left in the queue stays available", eng.loc(st, node),
                           "the event is cleared although data may be left", st.path())
        return None

    def settle(self, eng, st, node):
        """End of one iteration: what was taken from the queue is out, in order, or back."""
        h = st.mon.get("cur")
        if h is None:
            return st
        out = list(st.mon.get("out") or ())
        back = st.mon.get("back")
        popped = st.mon.get("popped")
        if not out:
            for fr in st.frames.values():
                for v in fr.values():
                    if isinstance(v, T) and v.op == "bin" and v.args[0] == "+" and any(x is h for x in subterms(v.args[2])):
                        if v.args[2] not in out:
                            out.append(v.args[2])
        ok, why = True, ""
        if not popped and back is None:
            ok, why = not out, "data is read but stays in the queue"
        else:
            pieces = out + ([back] if back is not None else [])
            ok, why = self.cover(eng, st, h, pieces)
        self.ctx.count("iterations")
        self.ctx.check(ok, "every byte taken from the queue is read once, in order, or put back", eng.loc(st, node), why, st.path())
        return st.setmon(cur=None, out=None, popped=None, back=None)

    def cover(self, eng, st, h, pieces):
        at = NONE
        for p in pieces:
            if p is h:
                if at is not NONE:
                    return False, "data is read twice"
                at = "end"
                continue
            if p.op != "slice" or p.args[0] is not h or p.args[3] is not NONE:
                return False, "%s is not a part of the data" % (p,)
            lo, hi = p.args[1], p.args[2]
            lo = start(h, lo)
            if at == "end" or (lo is not at and not (at is NONE and lo is const(0))):
                return False, "%s does not follow the part before" % (p,)
            at = "end" if hi is NONE else hi
        if at == "end":
            return True, ""
        if at is NONE:
            return False, "data is dropped"
        rest = mk("slice", h, at, NONE, NONE)
        n = mk("call", "len", None, (h,), (), None)
        if any(v is False and k.op == "slice" and k.args[0] is h and k.args[2] is NONE and k.args[3] is NONE and start(h, k.args[1]) is at
               for k, v in st.facts.items()):
            return True, ""
        if eng.decide(st, rest) is False or eng.decide(st, eng.mkeq(at, n)) is True or eng.decide(
                st, mk("cmp", "lt", at, n)) is False:
            return True, ""
        return False, "the rest of the data, %s, may be dropped" % (rest,)

    def backedge(self, eng, st, node):
        return self.settle(eng, st, node)


def start(h, n):
    """len(h[:n]) is n, as the start of a part."""
    if is_call(n, "len") and n.args[2]:
        x = n.args[2][0]
        if x.op == "slice" and x.args[0] is h and x.args[1] in (NONE, const(0)) and x.args[3] is NONE and x.args[2] is not NONE:
            return x.args[2]
    return n


def channel(eng):
    st = eng.start(CLIENT)
    cid = eng.find_class("Channel", CLIENT)
    r = make(eng, st, cid, (sym("client"), sym("number")), havoc=False, defaults=True)
    if len(r) != 1:
        from ..program import AnalysisError
        raise AnalysisError("the constructor of Channel splits")
    return r[0]


def queue(eng, st, ch):
    """The deque of the channel."""
    for n, v in eng.obj(st, ch).items.items():
        o = eng.obj(st, v) if v.op == "ref" else None
        if o is not None and o.kind == "list":
            return v
    return None


def callbacks(eng, st, ch, **cb):
    out = eng.invoke_method(st, ch, "set_callbacks", (), tuple(("on_" + k, v) for k, v in cb.items()))
    return [s for s, v in out.rets]


def events(s, *kinds):
    return [e for e in s.mon.get("events", ()) if not kinds or e[0] in kinds]


def reset(s):
    return s.setmon(events=None)


def run(ctx):
    ctx.rule("a channel is run through its life: open, closed once, closed twice; once closed, no method calls the client, a data or "
             "control callback, or the queue; where an open one sends, it holds a lock since it looked whether the channel had closed "
             "that closing takes as well; the close callback is called at most once and what it raises stays in the channel; "
             "on an open channel every datum goes to the callback or the end of the queue; reading moves bytes from the front "
             "of the queue to the result, each once and in order")
    ctx.assume("a set_callbacks() is not concurrent with data on the same channel; the client's own methods do not raise")
    mon = Channel(ctx)
    eng = ctx.engine(mon)
    cid = eng.find_class("Channel", CLIENT)
    where = cid
    st, ch = channel(eng)
    mon.deque = queue(eng, st, ch)
    st = reset(st)
    for cb in CB.values():
        st = st.setfact(eng.mkeq(cb, NONE), False).setfact(cb, True)
    n, d = sym("number"), sym("d", "bytes")
    # --- what closing changes, and under which locks
    mon.me = ch
    before = eng.obj(st, ch).items
    for s, v in eng.invoke_method(st, ch, "on_close").rets:
        mon.flags += tuple(k for k, v in eng.obj(s, ch).items.items() if before.get(k) is not v and is_const(v) and k not in mon.flags)
    # --- what a channel keeps is its own
    s, first = eng.new(st, HObj("list", items=(ch,)), eng.NODE, "first")
    for s, c2 in make(eng, s, cid, (sym("client"), sym("number2")), havoc=False):
        was = eng.obj(s, first).items[0]
        mine, other = eng.obj(s, was).items, eng.obj(s, c2).items
        for k, v in sorted(mine.items()):
            if v.op != "ref" or v is sym("client"):
                continue
            ctx.count("what a channel keeps")
            o = eng.obj(s, v)
            ctx.check(v not in other.values() or o is None or o.kind not in ("list", "dict", "set", "ext") or is_lock(o),
                      "what a channel keeps is its own", where + ".__init__",
                      "%s of a channel is that of every other channel" % k, s.path())
    # --- open
    for s, v in eng.invoke_method(st, ch, "write", (d,)).rets:
        ev = events(s, "client")
        if not ev and mon.in_parts:
            continue
        ctx.check(len(ev) == 1 and ev[0][2][:2] == (n, d), "an open channel sends what is written", where + ".write",
                  "writing on an open channel does %s" % (ev,), s.path())
    for s, v in eng.invoke_method(st, ch, "send_control", (d,)).rets:
        ev = events(s, "client")
        ctx.check(len(ev) == 1 and ev[0][2][:2] == (n, d), "an open channel sends what is written", where + ".send_control",
                  "sending control on an open channel does %s" % (ev,), s.path())
    for s, v in eng.invoke_method(st, ch, "close").rets:
        ev = events(s, "client")
        ctx.check(len(ev) == 1 and ev[0][2][:1] == (n,), "an open channel asks to be closed", where + ".close",
                  "closing an open channel does %s" % (ev,), s.path())
    for meth, kind in (("on_data", "data"), ("on_control", "control")):
        rets = 0
        for s0 in [st] + callbacks(eng, st, ch, **{kind: CB[kind]}):
            with_cb = s0 is not st
            out = eng.invoke_method(reset(s0), ch, meth, (d,))
            for s, v in out.rets:
                rets += 1
                ev = events(s, "callback", "queue")
                if with_cb:
                    want = [("callback", CB[kind].args[0], (d,))]
                elif kind == "data":
                    want = [("queue", ".append", (d,))]
                else:
                    want = []
                ctx.check(ev == want, "data on an open channel is delivered or queued", "%s.%s" % (where, meth),
                          "%s with%s a callback does %s" % (meth, "" if with_cb else "out", ev), s.path())
                if kind == "data" and not with_cb:
                    ctx.check(("event", ".set") in events(s, "event"), "queued data is announced", "%s.%s" % (where, meth),
                              "data is queued but readers are not woken", s.path())
        ctx.check(rets >= 2, "data on an open channel is delivered or queued", "%s.%s" % (where, meth), "nothing is delivered")
        ctx.count("open paths", rets)
    # --- closing, and closed
    closed = []
    for s0 in [st] + callbacks(eng, st, ch, data=CB["data"], close=CB["close"], control=CB["control"]):
        out = eng.invoke_method(reset(s0), ch, "on_close")
        ctx.check(not out.raises, "a failing close callback does not spread", where + ".on_close",
                  "what the close callback raises leaves on_close: %s" % ([x[1][0] for x in out.raises],))
        for s, v in out.rets:
            ev = [e for e in events(s, "callback")]
            want = 0 if s0 is st else 1
            ctx.check(len(ev) == want and all(e[1] == "close_cb" for e in ev), "closing is notified once",
                      where + ".on_close", "on_close calls %s" % (ev,), s.path())
            closed.append(s)
    ctx.check(bool(closed), "a channel can close", where + ".on_close", "on_close never completes")
    more = []
    for s in closed:
        for cbs in ({}, dict(data=CB["data"], close=CB["close"], control=CB["control"])):
            for s1 in ([s] if not cbs else callbacks(eng, s, ch, **cbs)):
                more.append(s1)
    for s in more:
        for meth, args in (("write", (d,)), ("send_control", (d,)), ("on_data", (d,)), ("on_control", (d,)),
                           ("on_close", ())):
            for s2, v in eng.invoke_method(reset(s), ch, meth, args).rets:
                ctx.count("closed paths")
                ev = events(s2, "client", "callback", "queue")
                ctx.check(not ev, "a closed channel is silent", "%s.%s" % (where, meth),
                          "%s on a closed channel does %s" % (meth, ev), s2.path())
    # the flag is never taken back
    import ast
    flags = set()
    for s in closed:
        for k, v in eng.obj(s, ch).items.items():
            if before.get(k) is not v and is_const(v):
                flags.add(k)
    ctx.check(bool(flags), "closing is recorded", where + ".on_close", "closing changes nothing in the channel")
    for name in sorted(eng.funcs):
        fn = eng.funcs[name]
        if fn.cls != cid or fn.node.name in ("__init__",):
            continue
        if fn.node.name in ("on_close", "write", "send_control", "on_data", "on_control", "close"):
            continue
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in flags:
                if not called_from(eng, cid, fn.node.name, "on_close"):
                    ctx.bad("a closed channel stays closed", name, "%s changes %s" % (name, x.attr))
    # --- reading
    mon = Read(ctx)
    eng = ctx.engine(mon)
    st, ch = channel(eng)
    q = queue(eng, st, ch)
    ctx.check(q is not None, "a channel has a queue", where, "no queue in a channel")
    ctx.check(eng.obj(st, q).cls != "bounded", "data is queued however much there is", where, "the queue drops data that does not fit")
    mon.deque = q
    st = st.setobj(q.args[0], eng.obj(st, q).with_(items=None, taint=frozenset()))
    out = eng.invoke_method(st, ch, "read", (sym("count", "int"),), (("block", sym("block")), ("timeout", sym("timeout"))))
    ctx.check(bool(out.rets), "data can be read", where + ".read", "read never completes")
    for s, v in out.rets:
        mon.settle(eng, s, eng.NODE)
        ctx.count("read paths")
    ctx.need("reads of the queue", 1)
    ctx.need("iterations", 1)
    ctx.need("closed paths", 10)
    ctx.need("sendings against closings", 3)


def is_lock(o):
    return o.kind == "ext" and str(o.cls).rpartition(".")[2] in ("Lock", "RLock", "lock", "allocate_lock")


def called_from(eng, cid, name, caller):
    import ast
    f = eng.class_attr(cid, caller)
    return any(isinstance(x, ast.Attribute) and x.attr == name for x in ast.walk(eng.funcs[f.args[0]].node))
