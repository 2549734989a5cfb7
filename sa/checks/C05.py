"""No message or handler failure ends the server connection loop."""

from ..terms import mk, sym, call, const, is_const, cval, is_call, subterms, NONE, ext
from ..engine import Monitor
from ..world import is_log, is_pure, forget

MODULE = "dataplicity.m2m.wsclient"
EXITS = ("SystemExit", "KeyboardInterrupt", "GeneratorExit")


def on_dispatcher(base):
    """A call on the client's dispatcher."""
    return base is not None and base.op == "attr" and base.args[1] == "dispatcher"


class Base(Monitor):

    def __init__(self, ctx):
        self.ctx = ctx

    def attribute_raises(self, eng, st, b, name):
        # events of other kinds have no data
        return b.op == "elem" and name != "name"

    def effect(self, eng, st, what, node):
        pass

    def store(self, eng, st, b, name, v, node, out):
        if b.op == "ref" and eng.obj(st, b) is not None:
            return None
        if name != "last_packet_time":
            self.effect(eng, st, "sets %s" % name, node)
        return None

    def setitem(self, eng, st, b, k, v, node, out):
        if b.op != "ref":
            self.effect(eng, st, "stores into %s" % (b,), node)

    def delitem(self, eng, st, b, k, node, out):
        if b.op != "ref":
            self.effect(eng, st, "deletes from %s" % (b,), node)


class Loop(Base):

    def __init__(self, ctx):
        Base.__init__(self, ctx)
        self.loops = set()

    def of_socket(self, t):
        return any(x.op == "attr" and x.args[1] == "websocket" for x in subterms(t))

    def iterate(self, eng, st, it, el, node):
        if self.of_socket(it) and not st.mon.get("loop"):
            self.ctx.count("event loops")
            self.loops.add(id(node))
            return st.setmon(loop=id(node), frame=st.cur, handling=1, failed=None)
        if st.mon.get("loop") == id(node):
            return st.setmon(handling=1, failed=None)
        return st

    def backedge(self, eng, st, node):
        if st.mon.get("loop") == id(node):
            self.ctx.count("events handled")
            return forget(st.setmon(handling=None, failed=None, dispatched=None))
        return st

    def raises(self, eng, st, name, base, args, kwargs):
        if is_call(base, ".run") if base is not None else False:
            return []
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        if not st.mon.get("handling") or name in eng.funcs or name in eng.classes:
            return None
        if st.mon.get("failed") and not is_log(name, base) and not is_pure(name) and name not in (
                ".__enter__", ".__exit__", "time.time", ".acquire", ".release"):
            self.ctx.bad("a failure has no effect beyond a log entry", eng.loc(st, node),
                         "%s is called after handling an event failed" % name, st.path())
        elif st.mon.get("failed"):
            self.ctx.ok("a failure has no effect beyond a log entry", eng.loc(st, node))
        return None

    def caught(self, eng, st, exc, handler, node):
        # the failure of the whole handling: caught where the loop is
        if st.mon.get("handling") and st.mon.get("frame") == st.cur and exc[0] not in EXITS:
            self.ctx.count("failures caught in the loop")
            return st.setmon(failed=1)
        return None


class Binary(Base):
    """What a message that is not dispatched does."""

    def __init__(self, ctx, ptype):
        Base.__init__(self, ctx)
        self.ptype = ptype
        self.decode = None

    def call(self, eng, st, name, base, args, kwargs, node):
        if name == self.decode:
            return [("ret", st, call("decoded", None, tuple(args))),
                    ("raise", st, ("Exception", False, frozenset(), mk("exc", "Exception", False, eng.site(st, node),
                                                                      None)))]
        if on_dispatcher(base):
            self.ctx.count("dispatch sites")
            where = eng.loc(st, node)
            a = args[0] if args else dict(kwargs).get("packet_type")
            ok = a is not None and (a.op == "enum" and a.args[0] == self.ptype or self.converted(eng, a))
            self.ctx.check(ok, "a packet type is recognised before it is acted on", where,
                           "a message of unknown type may be dispatched: %s" % (a,), st.path())
            src = [x for x in subterms(mk("tuple", tuple(args) + tuple(v for _, v in kwargs)))
                   if is_call(x, "decoded")]
            good = bool(src) and all(eng.decide(st, mk("call", "isinstance", None, (x, ext("list")), (), None)) is True
                                     for x in src)
            self.ctx.check(good, "only a list is acted on", where,
                           "a message that is not a list may be dispatched", st.path())
            return [("ret", st.setmon(dispatched=1), NONE)]
        if name in eng.funcs or name in eng.classes:
            return None
        self.ctx.ok("a message that is not dispatched has no effect", eng.loc(st, node))
        if not is_log(name, base) and not is_pure(name) and name not in ("time.time", self.ptype):
            self.effect(eng, st, "calls %s" % name, node)
        return None

    def converted(self, eng, a):
        return a.op == "call" and a.args[0] in (self.ptype, "enum:" + self.ptype)

    def effect(self, eng, st, what, node):
        if not st.mon.get("dispatched"):
            self.ctx.bad("a message that is not dispatched has no effect", eng.loc(st, node),
                         "handling a message %s before it is recognised" % what, st.path())


def run(ctx):
    ctx.rule("in the event loop of the client, no path through the handling of an event (everything it calls raising any "
             "Exception at every call) leaves the loop; it reaches the next iteration, with nothing but log calls after the "
             "failure; a message is dispatched only if it decoded to a list whose first item is a packet type, and "
             "otherwise nothing but logging happens")
    ctx.assume("lomond.persist.persist yields events until exit is requested and events other than Binary have no data; "
               "logging calls raise nothing; SystemExit and KeyboardInterrupt are exit requests")
    mon = Loop(ctx)
    eng = ctx.engine(mon)
    cid = eng.find_class("WSClient", MODULE)
    me = sym("self", cid)
    st = eng.start(MODULE)
    out = eng.invoke_method(st, me, "run")
    for s, v in out.rets:
        ctx.check(not s.mon.get("handling"), "the loop is left only at the end of the events", "%s.run" % cid,
                  "handling an event may end the loop", s.path(), key="loop left")
    for s, exc in out.raises:
        if exc[0] in EXITS:
            continue
        ctx.check(not s.mon.get("handling"), "the loop is left only at the end of the events", "%s.run" % cid,
                  "%s raised at %s while handling an event ends the loop" % (
                      exc[0], exc[3].args[2] if exc[3].op == "exc" else "?"), s.path(), key="loop escaped")
    for s, k in out.exits:
        ctx.check(not s.mon.get("handling"), "the loop is left only at the end of the events", "%s.run" % cid,
                  "handling an event may end the process", s.path(), key="loop exit")
    ctx.need("event loops", 1)
    ctx.need("events handled", 2)

    e0 = ctx.engine(Monitor())
    ptype = e0.find_class("PacketType", "dataplicity.m2m.packets")
    mon = Binary(ctx, ptype)
    eng = ctx.engine(mon)
    mon.decode = eng.find_func("decode", "dataplicity.m2m.bencode")
    out = eng.invoke_method(eng.start(MODULE), sym("self", cid), "on_binary", [sym("data", "bytes")])
    ctx.count("ways to end", len(out.rets))
    ctx.need("dispatch sites", 1)
    ctx.need("ways to end", 2)
