"""When a service ends its channel is closed."""

from ..terms import T, const, is_const, cval, subterms, NONE
from ..instr import world, instruct, run_thread, channel_number, is_field, ODD
from ..program import AnalysisError
from .C18 import POOL
from .C19 import Starts, PORT, is_asked


class Ends(Starts):
    """mon.closed = channels whose closing has been asked for."""

    write_fails = True

    def event(self, eng, st, what, ch, args, node):
        if what == "close":
            return st.setmon(closed=st.mon.get("closed", frozenset()) | {ch})
        return st

    def call(self, eng, st, name, base, args, kwargs, node):
        if self.ch.get(name) == "is_closed":
            # a channel seen closed stays closed, and closing it again does nothing
            ch = args[0] if args else base
            return [("ret", st.setmon(closed=st.mon.get("closed", frozenset()) | {ch}), const(True)), ("ret", st, const(False))]
        return super(Ends, self).call(eng, st, name, base, args, kwargs, node)


def run(ctx):
    ctx.rule("every instruction that starts a service is followed, and the thread it starts to every end (whatever call fails "
             "in it, whatever data comes, whether or not the channel has been closed): at each the closing of the service's "
             "channel has been asked for; a process that becomes another program or exits is no end of the service")
    ctx.assume("asking for the closing of a channel, and sending a control packet, do not raise")
    mon = Ends()
    eng = ctx.engine(mon)
    mon.prepare(eng)
    for st, client, manager in world(eng):
        for action, values in [(a, None) for a in sorted(POOL)] + sorted(ODD.items()):
            out = instruct(eng, st.setmon(phase="instruction", slots=(), changes=0, closed=frozenset()), manager, action, values)
            done = set()
            for s, _ in out.rets:
                if not s.mon.get("started") or s.mon.get("failed"):
                    continue
                s = s.setmon(phase="thread", changes=0)
                s.facts = {}
                s.trace = None
                if s.key() in done:
                    continue
                done.add(s.key())
                for i, t in enumerate(s.mon["started"]):
                    o = run_thread(eng, s, t, step=i + 1)
                    where = "the thread of %s" % action
                    ends = [(z, None) for z, _ in o.rets] + list(o.raises)
                    if not ends:
                        ctx.bad("a service ends", where, "the thread never ends", s.path())
                    for z, x in ends:
                        ctx.count("ends of services")
                        ok = any(is_asked(eng, z, ch, action) for ch in z.mon.get("closed", ()))
                        ctx.check(ok, "the channel is closed when its service ends", where,
                                  "the thread %s without asking for the channel to be closed" % (
                                      "ends" if x is None else "is left by " + x[0]), z.path(),
                                  key=action + (" raising" if x else ""))
            ctx.count("kinds of service", 1 if done else 0)
    ctx.need("kinds of service", 5)
    ctx.need("ends of services", 10)
