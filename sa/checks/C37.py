"""The clock watcher restarts the agent on a clock jump, and only then."""

from ..terms import mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE
from ..engine import Monitor
from .. import linear
from ..world import make, is_log, const_of

MODULE = "dataplicity.clockcheck"
WALL = ("time.time",)
ENDS = ("os.abort", "os._exit")


class Watch(Monitor):

    def __init__(self, ctx):
        self.ctx = ctx
        self.me = None
        self.limit = None
        self.period = None

    def raises(self, eng, st, name, base, args, kwargs):
        return []

    def call(self, eng, st, name, base, args, kwargs, node):
        where = eng.loc(st, node)
        if name.startswith("time.") and name != "time.sleep":
            n = len(st.mon.get("clock", ()))
            t = call("clock", None, (), (), eng.uid(st, node) + ":%d" % n)
            st = eng.purge(st, t)
            self.ctx.count("readings of the clock")
            return [("ret", st.setmon(clock=st.mon.get("clock", ()) + ((name, t, st.mon.get("slept", 0)),)), t)]
        if name == "time.sleep" or name == ".wait":
            v = args[0] if args else dict(kwargs).get("timeout")
            c = const_of(v)
            self.ctx.check(isinstance(c, (int, float)) and c > 0, "the watcher checks at a fixed period", where,
                           "the watcher waits for %s" % (v,), st.path())
            self.period = c
            # another thread may tell it to stop meanwhile
            st = volatile(eng, st.setmon(slept=st.mon.get("slept", 0) + 1), self.me)
            return [("ret", st, NONE if name == "time.sleep" else call("woken", None, (), (), eng.uid(st, node)))]
        if name in ("os.kill", "os.killpg") or name in ENDS:
            self.ctx.count("kills")
            if name == "os.kill":
                own = bool(args) and is_call(args[0], "os.getpid")
                self.ctx.check(own, "the watcher kills its own process only", where,
                               "the watcher kills %s" % (args[0] if args else "?"), st.path())
                sig = args[1] if len(args) > 1 else None
                ok = sig is not None and any(str(x.args[0] if x.op == "ext" else x.args[-1]).split(".")[-1] in (
                    "SIGKILL", "SIGTERM", "SIGABRT", "SIGINT") for x in subterms(sig) if x.op in ("ext", "attr")) \
                    or const_of(sig) in (9, 15, 6)
                self.ctx.check(ok, "the watcher ends the process", where, "the signal sent is %s" % (sig,), st.path())
            self.ctx.check(self.jumped(eng, st) is True, "the process is killed only on a clock jump", where,
                           "the process may be killed although the clock did not jump", st.path())
            return [("ret", st.setmon(killed=1), NONE)]
        return None

    def jumped(self, eng, st):
        """Whether the readings before and after the last sleep differ by more than the limit (or None)."""
        n = st.mon.get("slept", 0)
        before = [r for r in st.mon.get("clock", ()) if r[2] == n - 1]
        after = [r for r in st.mon.get("clock", ()) if r[2] == n]
        if not before or not after or any(r[0] not in WALL for r in before + after):
            return None
        for b in before[-1:]:
            for a in after[:1]:
                d = mk("bin", "-", a[1], b[1])
                return linear.decide(eng, st, mk("cmp", "lt", const(self.limit), d))

    def backedge(self, eng, st, node):
        if st.mon.get("slept"):
            self.ctx.count("periods")
            if not st.mon.get("killed"):
                self.ctx.check(self.jumped(eng, st) is False, "a clock jump kills the process", eng.loc(st, node),
                               "the watcher may go on although the clock jumped", st.path())
        last = st.mon.get("clock", ())[-1:]
        # a reading carried over to the next period is the one before it
        return st.setmon(slept=None, killed=None, clock=None if not last else tuple((a, b, 0) for a, b, _ in last))


def volatile(eng, st, me):
    s = st.copy()
    s.facts = {k: v for k, v in st.facts.items() if not any(
        x.op == "attr" and x.args[0] is me for x in subterms(k))}
    return s


def run(ctx):
    ctx.rule("the loop of the watcher is followed: between two readings of the wall clock around the wait, the process is killed "
             "exactly on the paths whose facts say they differ by more than the limit; the pid is the process's own; the thread "
             "is a daemon; the loop can be left, and is left at once if told to stop")
    ctx.assume("time.time is the wall clock and SIGKILL ends the process")
    mon = Watch(ctx)
    eng = ctx.engine(mon)
    cid = eng.find_class("ClockCheckThread", MODULE)
    try:
        lim = const_of(eng.global_value(MODULE, "MAX_CLOCK_DISCREPANCY"))
    except Exception:
        lim = None
    mon.limit = lim if isinstance(lim, (int, float)) else 180.0
    st = eng.start(MODULE)
    where = cid + ".run"
    fresh = make(eng, st, cid, (), havoc=False)
    for s, me in fresh:
        o = eng.obj(s, me)
        ctx.check(o.items.get("daemon") is TRUE, "the watcher never keeps the process alive", cid,
                  "the watcher is no daemon thread")
    for s, me in make(eng, st, cid, (), havoc=True):
        mon.me = me
        out = eng.invoke_method(s, me, "run")
        ctx.check(bool(out.rets), "the watcher stops when told to", where, "the loop of the watcher never ends")
        for t, x in out.raises:
            ctx.bad("the watcher goes on", where, "%s ends the watcher" % x[0], t.path())
        for t, v in out.rets:
            ctx.check(not t.mon.get("slept") or t.mon.get("killed") or mon.jumped(eng, t) is not True,
                      "a clock jump kills the process", where, "the watcher may end although the clock jumped", t.path())
    # told to stop before it runs
    for s, me in fresh:
        mon.me = me
        flags = [k for k, v in eng.obj(s, me).items.items() if v is TRUE and k != "daemon"]
        for k in flags:
            s2 = s.setobj(me.args[0], eng.obj(s, me).set_item(k, FALSE))
            out = eng.invoke_method(s2, me, "run")
            ctx.check(bool(out.rets) and not any(t.mon.get("slept") for t, _ in out.rets), "the watcher stops when told to", where,
                      "the watcher goes on though %s is false" % k)
    ctx.check(mon.period is not None and mon.limit > mon.period, "the process is killed only on a clock jump", where,
              "the limit is not above the period of the check")
    ctx.need("kills", 1)
    ctx.need("periods", 1)
    ctx.need("readings of the clock", 1)
