"""A forwarded connection ends with its peer and affects no other connection."""

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE
from ..instr import world, instruct, run_thread
from ..polls import Polls, IN, PRI
from ..state import HObj
from ..program import AnalysisError
from ..world import is_log

MUTATORS = (".set", ".clear", ".close", ".shutdown", ".cancel", ".stop", ".exit", ".notify", ".notify_all", ".register",
            ".unregister", ".modify")


class Relay(Polls):
    """mon.old: addresses of what existed before this connection."""

    def brought(self, eng, st, pairs):
        s = Polls.brought(self, eng, st, pairs)
        return self.ended(s, "the socket hung up or failed") if s.mon["hup"] else s

    def call(self, eng, st, name, base, args, kwargs, node):
        if name in (".recv", ".recv_into", ".recvfrom") and not self.ours(eng, st, base):
            where = eng.loc(st, node)
            self.report.count("reads")
            d = call("data received", base, (), (), eng.uid(st, node))
            s = eng.purge(st, d)
            s = s.setfact(d, True)
            return [("ret", s, d), ("ret", self.ended(st, "the local service has closed its side"), const(b"")),
                    self.exc(eng, self.ended(st, "the socket failed"), node, "ConnectionResetError")]
        if name == ".connect" and not self.ours(eng, st, base):
            return [("ret", st, NONE), self.exc(eng, self.ended(st, "the connection failed"), node, "ConnectionRefusedError"),
                    self.exc(eng, self.ended(st, "the connection failed"), node, "socket.timeout")]
        if name in MUTATORS and not is_log(name, base) and self.shared(eng, st, base):
            self.report.bad("a connection leaves shared state alone", eng.loc(st, node),
                            "%s() on what all connections share (%s)" % (name[1:], base), st.path(), key="shared %s" % name)
        return Polls.call(self, eng, st, name, base, args, kwargs, node)

    def ours(self, eng, st, b):
        o = eng.obj(st, b) if b is not None and b.op == "ref" else None
        return o is not None and o.kind == "inst" and o.cls in eng.classes and not o.cls.startswith("ext:")

    def shared(self, eng, st, b):
        old = st.mon.get("old")
        if old is None or b is None:
            return False
        if b.op == "ref":
            return b.args[0] in old or b.args[0] in eng.base_heap
        if any(x is b for c in eng.classes.values() for x in c.attrs.values()) or any(
                x is b for env in eng.modenv.values() for x in env.values()) or any(
                x is b for vs, kw in eng.defaults.values() for x in tuple(vs) + tuple(kw.values())):
            return b.op == "call"
        return any(x is b for a in old for x in vals(st.heap.get(a)))


def vals(o):
    return list(o.terms()) if o is not None else []


def run(ctx):
    ctx.rule("the thread of a forwarded connection is followed from its start to its end with every result of connecting, waiting "
             "and reading: it never waits again after an empty or failed read, a hang-up or an error reported by the wait, or "
             "its channel found closed, and looks at the channel between waits; neither the thread nor the callbacks of its "
             "channel change any object that existed before the connection (counts of limiters excepted)")
    ctx.assume("a wait that reports no data but an error or hang-up, and a read that fails, mean the end of the connection")
    mon = Relay(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    for st, client, manager in world(eng):
        for action, values in (("open-portforward", {"service": const(b"web")}), ("open-portredirect", {})):
            s0 = mon.fresh(st.setmon(phase="instruction", slots=(), changes=0))
            values = dict(values)
            if action == "open-portforward":
                s0, values["route"] = eng.new(s0, HObj("list", items=tuple(sym("field:route%d" % i) for i in range(4))),
                                              eng.NODE, "route")
            old = frozenset(s0.heap)
            before = {a: o.key() for a, o in s0.heap.items()}
            done = set()
            for s, _ in instruct(eng, s0, manager, action, values).rets:
                if len(s.mon.get("started", ())) != 1 or s.mon.get("failed"):
                    continue
                cb = [e for e in s.mon.get("calls", ())]
                s = s.setmon(phase="thread", changes=0, old=old)
                s.facts = {}
                s.trace = None
                if s.key() in done:
                    continue
                done.add(s.key())
                before = {a: s.heap[a].key() for a in old if a in s.heap}
                t = s.mon["started"][0]
                out = run_thread(eng, s, t, step=1)
                where = "the thread of %s" % action
                alone(ctx, eng, s, out, before, where)
                ctx.count("connections")
                for i, (ch, cbs) in enumerate(s.mon.get("callbacks", ())):
                    for z in connected(s, out):
                        for j, f in enumerate(cbs):
                            if not isinstance(f, T) or f.op not in ("bound", "func", "lambda"):
                                continue
                            o = eng.invoke(z, f, (sym("data", "bytes"),) if takes(eng, f) else (), ())
                            alone(ctx, eng, z, o, before, "a callback of %s" % action)
                            ctx.count("callbacks")
    ctx.need("connections", 2)
    ctx.need("waits", 2)
    ctx.need("reads", 1)
    ctx.need("callbacks", 4)


def connected(s, out):
    """The connection before it is connected, and at one of its ends."""
    return [s] + [z for z, _ in out.rets][:2]


def takes(eng, f):
    n = 0
    if f.op == "bound":
        n, f = 1, f.args[0]
    if f.op == "func":
        return len(eng.funcs[f.args[0]].node.args.args) > n
    return True


def alone(ctx, eng, s, out, before, where):
    lim = eng.find_class("Limiter", "dataplicity.limiter")
    for z in [z for z, _ in out.rets] + [z for z, _ in out.raises]:
        for a, k in before.items():
            o = z.heap.get(a)
            if o is None or o.key() == k or o.kind == "inst" and o.cls == lim:
                continue
            ctx.bad("a connection leaves shared state alone", where, "%s is changed" % (a[0] if isinstance(a, tuple) else a,),
                    z.path(), key="%s changes %s" % (where, a[0] if isinstance(a, tuple) else a))
        for a, o in z.heap.items():
            b = eng.base_heap.get(a)
            if b is not None and a not in before and b.kind in ("list", "dict", "set") and b.key() != o.key():
                ctx.bad("a connection leaves shared state alone", where, "what all connections share is changed (%s)" % (a,),
                        z.path(), key="%s changes shared %s" % (where, a[0] if isinstance(a, tuple) else a))
    ctx.ok("a connection leaves shared state alone", where)
