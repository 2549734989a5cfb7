"""Terminals: the thread of an open terminal, its process (forked on a pseudo terminal) and what may happen to it.

mon.child   None before the fork, "parent" or "child" after it
mon.group, mon.user   what the child switched to: () or (name asked for, ...)
"""

from .terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE
import ast

from .checks.C19 import Starts
from .instr import run_thread
from .world import stored_names
from .program import AnalysisError

PID, FD = 4242, 105
NAME = "terminal"
COMMAND = sym("terminal command", "str")
USER, GROUP = sym("terminal user", "str"), sym("terminal group", "str")


class Terms(Starts):

    write_fails = True

    def __init__(self, ctx):
        Starts.__init__(self)
        self.report = ctx

    def exc(self, eng, st, node, name="OSError", exact=False):
        return ("raise", st, (name, exact, frozenset(), mk("exc", name, exact, eng.site(st, node), None)))

    def forked(self, eng, st, node):
        return [(st.setmon(child="parent"), PID), (st.setmon(child="child"), 0)]

    def call(self, eng, st, name, base, args, kwargs, node):
        if name in ("pty.fork", "os.fork", "os.forkpty"):
            if st.mon.get("child") is not None:
                raise AnalysisError("a terminal forks twice")
            self.report.count("forks")
            res = [self.exc(eng, st, node)]
            for s, pid in self.forked(eng, st, node):
                v = const(pid)
                if name != "os.fork":
                    v = mk("tuple", (v, const(FD if pid else -1)))
                res.append(("ret", s, v))
            return res
        return Starts.call(self, eng, st, name, base, args, kwargs, node)

    def threads(self, eng, st, manager, user=NONE, group=NONE):
        """[(state, thread, channel)]: the threads of an opened terminal (those started by opening it)."""
        res = []
        for s, _ in eng.invoke_method(st, manager, "add_terminal", (const(NAME), COMMAND),
                                      (("user", user), ("group", group))).rets:
            s = s.setmon(phase="instruction", slots=(), changes=0, said=(), refused=0, started=(), failed=(), child=None)
            from .instr import instruct
            for z, _ in instruct(eng, s, manager, "open-terminal", values={"name": const(NAME)}).rets:
                if z.mon.get("failed") or z.mon.get("refused") or not z.mon.get("started"):
                    continue
                z = z.setmon(phase="thread", changes=0, said=())
                z.facts = {}
                for v in (user, group):
                    if v is not NONE:
                        z = z.setfact(v, True)
                z.trace = None
                res.append(z)
        if not res:
            raise AnalysisError("opening a terminal starts no thread")
        return res


def step_node(n):
    return ast.parse("\n" * n + "entry()").body[0].value


class Meanwhile(Terms):
    """Another thread may come between: mon.pre: what may yet happen at any point, mon.depth: it is happening; mon.insider: locks
    held by the thread that is interrupted.  self.root: the frame to return to, self.body: the thread of the terminal."""

    def meanwhile(self, eng, st, what):
        """[state]: after everything the other thread does."""
        raise NotImplementedError

    # the other thread may come between
    def around(self, eng, st, node):
        """[state]: as it is, and after everything the other thread does."""
        if st.mon.get("pre") is None or st.mon.get("depth") or st.mon.get("child") == "child":
            return [st]
        self.report.count("interruptions")
        s = st.setmon(pre=None, depth=1, insider=st.held)
        res = [st]
        for z in self.other(eng, s, st.mon["pre"]):
            z = z.setmon(depth=0, insider=())
            res.append(z)
        return res

    def other(self, eng, st, what):
        s = st.copy()
        s.cur = self.root
        s.held = ()
        res = []
        for z in self.meanwhile(eng, s, what):
            z = z.copy()
            z.cur = st.cur
            z.held = st.held
            res.append(z)
        return res

    def thread(self, eng, st, step):
        return run_thread(eng, st, self.body, step=step)

    def getattr(self, eng, st, b, name, node):
        r = Terms.getattr(self, eng, st, b, name, node)
        if r is not None:
            return r
        if not self.shared(eng, st, b, name):
            return None
        return [(s, eng.obj(s, b).items[name]) for s in self.around(eng, st, node)]

    def store(self, eng, st, b, name, v, node, out):
        r = Terms.store(self, eng, st, b, name, v, node, out)
        if r is not None or not self.shared(eng, st, b, name):
            return r
        return [s.setobj(b.args[0], eng.obj(s, b).set_item(name, v)) for s in self.around(eng, st, node)]

    def shared(self, eng, st, b, name):
        if b.op != "ref" or st.mon.get("pre") is None or st.mon.get("depth") or name not in stored_names(eng):
            return False
        o = eng.obj(st, b)
        return o is not None and o.kind == "inst" and name in o.items and o.cls not in (self.limiter, self.channel)

    def acquire(self, eng, st, lock, node):
        if lock in st.mon.get("insider", ()):
            return None
        return Terms.acquire(self, eng, st, lock, node)

    def thread_start(self, eng, st, b, node):
        res = []
        for s in self.around(eng, st, node):
            res += Terms.thread_start(self, eng, s, b, node)
        return res
