"""A lost connection leaves no stale session state behind."""

from ..terms import mk, sym, call, const, is_const, cval, is_call, subterms, NONE
from ..world import make, const_of
from ..wire import Wire, unwrap
from .. import packets

MODULE = "dataplicity.m2m.wsclient"


class Session(Wire):

    def __init__(self, ctx):
        self.ctx = ctx
        self.known = {}

    def call(self, eng, st, name, base, args, kwargs, node):
        if name == "call" and base is not None and base.op == "sym" and str(base.args[0]).startswith("cb:"):
            vals = tuple(args) + tuple(v for _, v in kwargs)
            return [("cont", st.setmon(called=st.mon.get("called", ()) + ((base.args[0],) + vals,)))]
        if name == ".send_binary" and args:
            s = st.setmon(handed=st.mon.get("handed", ()) + (args[0],))
            return [("ret", s, NONE), ("raise", st.setmon(refused=1), ("lomond.errors.WebSocketError", True, frozenset(), mk(
                "exc", "lomond.errors.WebSocketError", True, eng.site(st, node), None)))]
        return Wire.call(self, eng, st, name, base, args, kwargs, node)


def event(eng, st, name):
    ev = sym("event:" + name)
    return eng.setattr_(st, ev, "name", const(name), eng.NODE, eng.newout())[0], ev


def cb(eng, st, name):
    t = sym("cb:" + name)
    return st.setfact(eng.mkeq(t, NONE), False).setfact(t, True), t


def one(out, what):
    from ..program import AnalysisError
    if not out.rets:
        raise AnalysisError("%s never completes" % what)
    return out.rets


def run(ctx):
    ctx.rule("the client is run through a session: channels opened and callbacks added, then the connection lost (any callback "
             "raising), or one channel closed by the server, then the same numbers used again, then a connection made")
    ctx.assume("events are told apart by their name, as lomond's are; the manager's methods do not raise")
    mon = Session(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    cid = eng.find_class("WSClient", MODULE)
    st = eng.start(MODULE)
    made = make(eng, st, cid, havoc=False)
    for st, me in made:
        session(ctx, eng, st, me, cid)
        for known in (False, True):
            connect(ctx, eng, st, me, cid, known)
        refused(ctx, eng, st, me, cid)
    ctx.need("sessions", 1)
    ctx.need("lost connections", 1)
    ctx.need("channels reused", 2)
    ctx.need("introductions", 2)
    ctx.need("connections after a failure to send", 1)


def session(ctx, eng, st, me, cid):
    where = cid
    a, b = const(7), const(9)
    chans = {}
    states = [(st, {})]
    for n in (a, b):
        states = [(s, dict(d, **{str(cval(n)): c})) for s0, d in states
                  for s, c in one(eng.invoke_method(s0, me, "get_channel", (n,), step=cval(n)), "get_channel")]
    # the same number means the same channel while the connection lasts
    for s, d in states:
        for s2, c in one(eng.invoke_method(s, me, "get_channel", (a,), step=20), "get_channel"):
            ctx.check(c is d["7"], "a channel number means one channel", where + ".get_channel",
                      "the same number gives another channel", s2.path())
        ctx.check(d["7"] is not d["9"], "a channel number means one channel", where + ".get_channel",
                  "two numbers give one channel", s.path())
    full = []
    for s, d in states:
        ss = [s]
        for n in ("7", "9"):
            nxt = []
            for s in ss:
                s, t = cb(eng, s, "close" + n)
                nxt += [x for x, _ in one(eng.invoke_method(s, d[n], "set_callbacks", (), (("on_close", t),)),
                                          "set_callbacks")]
            ss = nxt
        for c, names in ((const("c1"), ("x", "y")), (const("c2"), ("z",))):
            for n in names:
                nxt = []
                for s in ss:
                    s, t = cb(eng, s, "cmd_" + n)
                    nxt += [x for x, _ in one(eng.invoke_method(s, me, "add_callback", (c, t)), "add_callback")]
                ss = nxt
        for s in ss:
            out = eng.newout()
            for s2 in eng.setattr_(s, me, "identity", sym("identity", "bytes"), eng.NODE, out):
                full.append((s2.setmon(called=None), d))
    ctx.count("sessions", len(full))
    for s, d in full:
        lost(ctx, eng, s, me, cid, d, a, b)
        closed(ctx, eng, s, me, cid, d, a, b)


def fresh(ctx, eng, s, me, n, old, where, why):
    for s2, c in one(eng.invoke_method(s, me, "get_channel", (n,), step=22), "get_channel"):
        ctx.count("channels reused")
        o = eng.obj(s2, c) if c.op == "ref" else None
        ctx.check(c is not old and o is not None, "a number used again means a new channel", where,
                  "after %s the old channel is still used" % why, s2.path())


def lost(ctx, eng, s, me, cid, d, a, b):
    where = cid + ".on_disconnected"
    s, ev = event(eng, s, "disconnected")
    out = eng.invoke_method(s, me, "on_event", (ev,))
    for s2, exc in out.raises:
        ctx.bad("losing the connection is handled whatever the callbacks do", where,
                "%s leaves the handling of a lost connection" % exc[0], s2.path())
    for s2, v in one(out, "on_event"):
        ctx.count("lost connections")
        called = s2.mon.get("called", ())
        for n in ("close7", "close9"):
            k = len([e for e in called if e[0] == "cb:" + n])
            ctx.check(k == 1, "every open channel is told once that it has closed", where,
                      "a channel is told %d times" % k, s2.path())
        for n in ("cmd_x", "cmd_y", "cmd_z"):
            got = [e[1:] for e in called if e[0] == "cb:" + n]
            ctx.check(got == [(NONE,)], "waiting callbacks are released once, with no result", where,
                      "a command callback is called with %s" % (got,), s2.path())
        out2 = eng.newout()
        for s3, v in eng.getattr_(s2, me, "identity", eng.NODE, out2):
            ctx.check(v is NONE, "the old identity is forgotten", where, "the identity is %s" % (v,), s3.path())
        fresh(ctx, eng, s2, me, a, d["7"], where, "the connection was lost")
        fresh(ctx, eng, s2, me, b, d["9"], where, "the connection was lost")
        # released callbacks are not called again
        s3 = s2.setmon(called=None)
        for s4, v in eng.invoke_method(s3, me, "callback", (const("c1"), sym("result"))).rets:
            ctx.check(not s4.mon.get("called"), "a released callback is forgotten", where,
                      "a callback is called again after the connection was lost", s4.path())


def closed(ctx, eng, s, me, cid, d, a, b):
    where = cid + ".on_notify_close"
    handler = find_handler(eng, cid, "notify_close")
    out = eng.invoke_method(s, me, handler, (sym("packet_type"), a))
    for s2, exc in out.raises:
        ctx.bad("a channel closed by the server is forgotten", where, "%s leaves the handler" % exc[0], s2.path())
    for s2, v in one(out, "notify_close"):
        called = [e[0] for e in s2.mon.get("called", ())]
        ctx.check(called == ["cb:close7"], "only the closed channel is told that it has closed", where,
                  "closing a channel calls %s" % (called,), s2.path())
        fresh(ctx, eng, s2, me, a, d["7"], where, "the server closed it")
        for s3, c in one(eng.invoke_method(s2, me, "get_channel", (b,), step=21), "get_channel"):
            ctx.check(c is d["9"], "other channels stay", where, "closing a channel replaces another", s3.path())
        # closing it again does nothing
        for s3, v in one(eng.invoke_method(s2.setmon(called=None), me, handler, (sym("packet_type"), a)), "notify_close"):
            ctx.check(not s3.mon.get("called"), "closing an unknown channel does nothing", where,
                      "closing an unknown channel calls %s" % (s3.mon.get("called"),), s3.path())


def find_handler(eng, cid, name):
    """The method exposed for a packet type."""
    import ast
    for q in sorted(eng.funcs):
        f = eng.funcs[q]
        if f.cls == cid:
            for dec in f.node.decorator_list:
                for x in ast.walk(dec):
                    if isinstance(x, ast.Attribute) and x.attr == name:
                        return f.node.name
    from ..program import AnalysisError
    raise AnalysisError("no handler of %s" % name)


def connect(ctx, eng, st, me, cid, known):
    where = cid + ".on_ready"
    ident = sym("identity", "bytes") if known else NONE
    if known:
        st = st.setfact(eng.mkeq(ident, NONE), False)
    out = eng.newout()
    for s in eng.setattr_(st, me, "identity", ident, eng.NODE, out):
        s, ev = event(eng, s, "ready")
        s = s.setmon(sent=None, called=None)
        r = eng.invoke_method(s, me, "on_event", (ev,))
        ctx.check(bool(r.rets), "the agent introduces itself", where, "on a connection nothing can be sent")
        for s2, v in r.rets:
            ctx.count("introductions")
            sent = s2.mon.get("sent", ())
            kinds = [(const_of(m[0]),) + tuple(unwrap(x) for x in m[1:]) for m in sent]
            num = numbers_of(eng, "request_identify" if known else "request_join")
            want = [(num, ident)] if known else [(num,)]
            ctx.check(kinds == want, "the agent introduces itself", where,
                      "with%s an identity a connection sends %s" % ("" if known else "out", kinds), s2.path())


def refused(ctx, eng, st, me, cid):
    """What could not be sent on one connection is not sent on the next, in which its channel means nothing."""
    where = cid + ".on_ready"
    d = sym("late data", "bytes")
    done = set()
    for s, ch in one(eng.invoke_method(st, me, "get_channel", (const(7),), step=30), "get_channel"):
        for s2, _ in one(eng.invoke_method(s, ch, "send_control", (d,), step=31), "send_control"):
            if not s2.mon.get("refused"):
                continue
            s2, ev = event(eng, s2, "disconnected")
            for s3, _ in one(eng.invoke_method(s2, me, "on_event", (ev,), step=32), "on_event"):
                s3, ev = event(eng, s3, "ready")
                s3 = s3.setmon(sent=None, called=None, handed=None, refused=None)
                s3.facts = {}
                s3.trace = None
                if s3.key() in done:
                    continue
                done.add(s3.key())
                for s4, _ in eng.invoke_method(s3, me, "on_event", (ev,), step=33).rets:
                    ctx.count("connections after a failure to send")
                    old = [x for x in s4.mon.get("handed", ()) if any(y is d for y in subterms(x))]
                    ctx.check(not old, "a new connection begins anew", where, "what could not be sent on the connection before is sent: %s" % (
                        old,), s4.path(), key="stale")


def numbers_of(eng, name):
    return packets.numbers(eng)[name]
