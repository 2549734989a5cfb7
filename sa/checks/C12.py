"""Polling survives every failure and shutdown is orderly."""

from ..terms import mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE
from ..engine import Monitor
from ..api import client, CLIENT
from ..program import AnalysisError
from ..world import make, is_log, const_of, forget

EXITS = ("SystemExit", "KeyboardInterrupt", "GeneratorExit")


def exc(eng, st, node, name="Exception"):
    return ("raise", st, (name, name != "Exception", frozenset(), mk("exc", name, name != "Exception", eng.site(st, node), None)))


class Poll(Monitor):
    """One poll: its three parts fail or not."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.parts = {}
        self.body = set()

    def raises(self, eng, st, name, base, args, kwargs):
        if is_log(name, base) or name.startswith("time."):
            return []
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        p = self.parts.get(name)
        if p:
            st = st.setmon(done=tuple(sorted(set(st.mon.get("done", ())) | {p})))
            if p != "sync":
                return [("ret", st, NONE), exc(eng, st, node)]
            return [("cont", st)]
        if name in self.body:
            return [("ret", st, NONE), exc(eng, st, node)]
        return None


class Loop(Monitor):

    def __init__(self, ctx):
        self.ctx = ctx
        self.poll = self.close = None

    def raises(self, eng, st, name, base, args, kwargs):
        return []

    def call(self, eng, st, name, base, args, kwargs, node):
        if name == self.poll:
            self.ctx.count("polls")
            st = st.setmon(polled=1)
            return [("ret", st, NONE)] + [exc(eng, st.setmon(left=1), node, n) for n in EXITS[:2]]
        if name == self.close:
            return [("ret", st.setmon(closed=1), NONE)]
        if base is not None and name in (".wait", ".is_set") and event_of(base):
            self.ctx.count("waits for an exit request")
            if name == ".wait":
                self.ctx.check(bool(args) or bool(kwargs), "the loop polls again", eng.loc(st, node),
                               "the wait for an exit request has no timeout", st.path())
                if st.mon.get("waited"):
                    self.ctx.check(bool(st.mon.get("polled")), "the loop polls again", eng.loc(st, node),
                                   "a period may pass without a poll", st.path())
                st = st.setmon(waited=1, polled=None)
            return [("ret", st.setmon(left=1), TRUE), ("ret", st, FALSE)] + (
                [exc(eng, st.setmon(left=1), node, n) for n in EXITS[:2]])
        return None


def event_of(t):
    return any(x.op == "ref" or x.op == "attr" or is_call(x, "threading.Event") for x in (t,)) or t.op == "call"


def run(ctx):
    ctx.rule("Client.poll is run with its parts (disk report, tag report, sync) failing or not: every path attempts all three and "
             "raises nothing; in Client.run_forever every way out is an exit request, SystemExit or KeyboardInterrupt, "
             "and on each the clock watcher is in a state in which it stops and the client has been closed")
    ctx.assume("the clock watcher can be started and joined; log calls raise nothing")
    mon = Poll(ctx)
    eng = ctx.engine(mon)
    cid = eng.find_class("Client", CLIENT)

    def qual(name, need=True):
        v = eng.class_attr(cid, name)
        if v is None or v.op != "func":
            if need:
                raise AnalysisError("Client has no %s" % name)
            return None
        return v.args[0]
    for n, p in (("disk_poll", "disk report"), ("tag_poll", "tag report"), ("sync", "sync")):
        mon.parts[qual(n)] = p
    if qual("_sync", False):
        mon.body.add(qual("_sync"))
    made = client(eng, havoc=True)[:1]
    for s0, me in made:
        for s, x in eng.invoke_method(s0, me, "poll").raises:
            if x[0] in EXITS:
                continue
            ctx.bad("a failure does not leave the poll", cid + ".poll", "%s from %s leaves poll" % (
                x[0], x[3].args[2] if x[3].op == "exc" else "?"), s.path())
        out = eng.invoke_method(s0, me, "poll")
        for s, v in out.rets:
            ctx.count("paths of a poll")
            miss = sorted({"disk report", "tag report", "sync"} - set(s.mon.get("done", ())))
            ctx.check(not miss, "a poll attempts everything", cid + ".poll", "a poll may miss %s" % ", ".join(miss), s.path())
        out = eng.invoke_method(s0, me, "sync")
        for s, x in out.raises:
            ctx.check(x[0] in EXITS, "a failing sync goes no further", cid + ".sync", "%s leaves sync" % x[0], s.path())
        ctx.check(bool(out.rets), "a failing sync goes no further", cid + ".sync", "sync never completes")
    ctx.need("paths of a poll", 1)

    mon = Loop(ctx)
    eng = ctx.engine(mon)
    mon.poll = qual("poll")
    mon.close = qual("close")
    clock = eng.find_class("ClockCheckThread", "dataplicity.clockcheck")
    where = cid + ".run_forever"
    for s0, me in client(eng, havoc=True)[:1]:
        out = eng.invoke_method(s0, me, "run_forever")
        ctx.check(bool(out.rets), "the loop ends when asked to", where, "the polling loop never ends")
        for s, x in list(out.rets) + list(out.raises):
            ctx.count("ways out")
            if not any(s is t for t, _ in out.rets) and not any(s.mon.get(k) for k in ("polled", "waited", "left")):
                continue        # the loop was not reached: no thread could be started
            ctx.check(bool(s.mon.get("left")), "the loop ends only when asked to", where,
                      "the polling loop may end without an exit request", s.path())
            ctx.check(bool(s.mon.get("closed")), "the client is closed however the loop ends", where,
                      "the client may be left open", s.path())
            stopped(ctx, eng, mon, s, clock, where)
    ctx.need("polls", 2)
    ctx.need("ways out", 2)
    ctx.need("waits for an exit request", 1)


def stopped(ctx, eng, mon, s, clock, where):
    """The watcher made on this path would stop at once."""
    found = 0
    for a, o in s.heap.items():
        if getattr(o, "kind", None) == "inst" and o.cls == clock:
            found += 1
            from ..terms import ref
            seen = []

            class Idle(Monitor):
                def raises(self, e, st, name, base, args, kwargs):
                    return []

                def call(self, e, st, name, base, args, kwargs, node):
                    if name in ("time.sleep", "os.kill", ".wait"):
                        seen.append(name)
                        return [("exit", st, "sleep")]
                    return None
            old, eng.mon = eng.mon, Idle()
            try:
                out = eng.invoke_method(s, ref(a), "run")
            finally:
                eng.mon = old
            ctx.check(not seen and bool(out.rets), "the clock watcher is told to stop however the loop ends", where,
                      "the clock watcher may go on", s.path())
    ctx.count("watchers", found)
    ctx.check(found > 0, "the clock watcher runs with the loop", where, "no clock watcher is started", s.path())
