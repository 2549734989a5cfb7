"""Threads that wait for data with poll(): what each wait may bring, and whether the thread may wait again.

mon.polled  number of waits on the path (0, 1 or 2 for more)
mon.fds     descriptors registered
mon.over    why there must be no further wait (None: nothing happened yet)
mon.seen    the channel was looked at, and open, since the last wait
mon.ready   descriptors readable according to the last wait
mon.hup     descriptors hung up (without data) and still registered
"""

from .terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE
from .state import HObj
from .checks.C19 import Starts

IN, PRI, ERR, HUP = 1, 2, 8, 16
MASKS = (IN, IN | HUP, HUP, ERR, ERR | HUP)


class Polls(Starts):

    write_fails = True
    masks = MASKS

    def __init__(self, ctx):
        Starts.__init__(self)
        self.report = ctx

    def fresh(self, st):
        return st.setmon(polled=0, fds=(), over=None, seen=0, ready=(), hup=())

    def exc(self, eng, st, node, name="OSError", exact=True):
        return ("raise", st, (name, exact, frozenset(), mk("exc", name, exact, eng.site(st, node), None)))

    def raises(self, eng, st, name, base, args, kwargs):
        if name in ("socket.socket", ".setsockopt", ".settimeout", ".fileno", ".register", ".unregister", "select.poll"):
            return []
        return Starts.raises(self, eng, st, name, base, args, kwargs)

    # to be refined
    def results(self, eng, st, node):
        """What a wait may bring: [[(descriptor, mask), ...]]."""
        res = [[]]
        for fd in st.mon["fds"]:
            res += [[(fd, m)] for m in self.masks]
        return res

    def brought(self, eng, st, pairs):
        """The state after this wait."""
        ready = tuple(fd for fd, m in pairs if m & (IN | PRI))
        hup = tuple(fd for fd, m in pairs if not m & (IN | PRI) and m & (HUP | ERR))
        return st.setmon(ready=ready, hup=hup)

    def again(self, eng, st, node):
        """The thread is about to wait."""
        where = eng.loc(st, node)
        over = st.mon.get("over")
        self.report.check(over is None, "the service does not wait on after its end", where,
                          "it polls again although %s" % over, st.path(), key="waits on: %s" % over)
        if st.mon.get("polled"):
            self.report.check(bool(st.mon.get("seen")), "the service looks whether its channel has closed", where,
                              "it polls again without having found its channel open", st.path(), key="channel looked at")
        self.report.count("waits")

    def call(self, eng, st, name, base, args, kwargs, node):
        if is_call(base, "select.poll") if base is not None else False:
            if name == ".register":
                return [("ret", st.setmon(fds=tuple(f for f in st.mon.get("fds", ()) if f is not args[0]) + (args[0],)), NONE)]
            if name == ".unregister":
                return [("ret", st.setmon(fds=tuple(f for f in st.mon.get("fds", ()) if f is not args[0]),
                                          hup=tuple(f for f in st.mon.get("hup", ()) if f is not args[0])), NONE)]
            if name == ".poll":
                return self.wait(eng, st, node)
        if self.ch.get(name) == "is_closed":
            return [("ret", st.setmon(seen=1), FALSE), ("ret", self.ended(st, "its channel has closed"), TRUE)]
        return Starts.call(self, eng, st, name, base, args, kwargs, node)

    def ended(self, st, why):
        return st.setmon(over=why) if st.mon.get("over") is None else st

    def wait(self, eng, st, node):
        self.again(eng, st, node)
        if st.mon.get("over") is not None:
            return []
        n = st.mon.get("polled", 0)
        st = st.setmon(polled=min(n + 1, 2), seen=0, ready=(), hup=())
        res = [self.exc(eng, self.ended(st, "waiting failed"), node)]
        for pairs in self.results(eng, st, node):
            s = self.brought(eng, st, pairs)
            s, r = eng.new(s, HObj("list", items=tuple(mk("tuple", (fd, const(m))) for fd, m in pairs)), node, "polled")
            res.append(("ret", s, r))
        return res
