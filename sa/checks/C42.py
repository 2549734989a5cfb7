"""C42: a terminal has the window size that was asked for last."""

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, FALSE
from ..instr import world, run_thread, instruct
from ..term import Terms, Meanwhile, FD, NAME, COMMAND, step_node
from ..state import HObj
from ..program import AnalysisError

TECHNIQUE = ("abstract interpretation of the start of a terminal's thread and of its control messages, either one happening at any point "
             "of the other; the sizes set on the pseudo terminal compared with the one asked for last")
NOTE = "Two threads interrupt each other once."
RULE = "the size asked for last is set"
MODULE = "dataplicity.m2mmanager"
NOFAIL = ("json.loads", "array.array", "struct.pack", "select.poll", ".register", "shlex.split", "os.close", ".format", "pty.fork", ".poll")
CONTROL = sym("control message", "bytes")


def size(n):
    return (sym("columns %s" % n, "int"), sym("lines %s" % n, "int"))


def plain(t):
    while t.op == "call" and t.args[0] in ("int", "str") and len(t.args[2]) == 1:
        t = t.args[2][0]
    return t


class Sizes(Meanwhile):
    """mon.asked: (columns, lines) last asked for; mon.applied: what was set; mon.broken: setting it failed; mon.next: the size
    in the next control message; mon.cut: whether the thread of the terminal stops where it waits for output."""

    write_fails = False

    def raises(self, eng, st, name, base, args, kwargs):
        if name in NOFAIL:
            return []
        return Meanwhile.raises(self, eng, st, name, base, args, kwargs)

    def decide(self, eng, st, t):
        if t.op == "cmp" and t.args[0] == "eq":
            # sizes differ
            x, y = (tuple(eng.known_items(st, v) or (v,)) for v in t.args[1:3])
            if x != y and len(x) == len(y) and all(v.op == "sym" and str(v.args[0]).startswith(("columns ", "lines ")) or is_const(v)
                                                   for v in x + y) and not all(map(is_const, x + y)):
                return False
        return Meanwhile.decide(self, eng, st, t)

    def forked(self, eng, st, node):
        return [(st.setmon(child="parent"), 4242)]

    def event(self, eng, st, what, ch, args, node):
        return Terms.event(self, eng, st, what, ch, args, node) if what == "set_callbacks" else st

    def control(self, eng, st, step):
        """[(state, error)]: after a control message."""
        out = eng.newout()
        res = []
        for f in self.handlers:
            res += eng.call_value(st, f, (CONTROL,), (), step_node(step), out)
        if out.exits:
            raise AnalysisError("a control message ends the process")
        return [(z, None) for z, _ in res] + [(z, x) for z, x in out.raises]

    def meanwhile(self, eng, st, what):
        if what == "control":
            return [self.handled(eng, z, x) for z, x in self.control(eng, st, 3)]
        out = self.thread(eng, st.setmon(cut=1), 3)
        return [z.setmon(cut=None) for z, _ in out.rets] + [z.setmon(cut=None) for z, _ in out.raises] \
            + [e[0].setmon(cut=None) for e in out.exits]

    def handled(self, eng, z, x):
        if x is not None and not z.mon.get("broken"):
            self.report.bad(RULE, "on a request to resize", "%s is raised" % x[0], z.path(), key="raised")
        return z

    def acted(self, st):
        return st.mon["asked"] is not None

    def call(self, eng, st, name, base, args, kwargs, node):
        if name == "json.loads" and args and CONTROL in subterms(args[0]):
            self.report.check(plain(args[0]) is not CONTROL, "control messages are decoded", eng.loc(st, node),
                              "json.loads() takes no bytes before Python 3.6, which the agent supports: they are to be decoded first",
                              st.path(), key="bytes")
            kind, what = st.mon["next"]
            if kind == "undecodable":
                return [("raise", st, ("ValueError", True, frozenset(), mk("exc", "ValueError", True, eng.site(st, node), None)))]
            items = {const("type"): const(kind)}
            s, l = eng.new(st, HObj("list", items=tuple(what)), node, "size")
            items[const("size")] = l
            s, d = eng.new(s, HObj("dict", items=items), node, "control")
            if kind == "window_resize":
                s = s.setmon(asked=tuple(what))
            return [("ret", s, d)]
        if name in ("array.array", "struct.pack") and args:
            xs = args[1:]
            if name == "array.array" and len(xs) == 1:
                xs = eng.known_items(st, xs[0])
            if xs is not None:
                return [("ret", st, call("window size", None, tuple(xs), ()))]
        if name in ("fcntl.ioctl", "termios.tcsetwinsize"):
            op = args[1] if len(args) > 1 else NONE
            if name == "fcntl.ioctl" and str(op.args[0] if op.args else "") != "termios.TIOCSWINSZ":
                return None
            res = []
            for s in self.around(eng, st, node):
                self.report.count("sizes set")
                xs = None
                if name != "fcntl.ioctl":
                    xs = eng.known_items(s, op)
                elif len(args) > 2:
                    w = [x for x in subterms(args[2]) if is_call(x, "window size")]
                    xs = w[0].args[2] if w else None
                if xs is None or len(xs) < 2:
                    raise AnalysisError("the size %s that is set at %s is not understood" % (args[-1], eng.loc(st, node)))
                s = s.setmon(applied=(plain(xs[1]), plain(xs[0])))
                res.append(("ret", s, NONE))
                res.append(self.exc(eng, s.setmon(broken=1), node))
            return res
        if name in (".poll", "select.select", "os.read", "select.poll") and st.mon.get("cut"):
            return [("exit", s, "waits") for s in self.around(eng, st, node)]
        if name in ("pty.fork", "os.fork", "os.forkpty") and not st.mon.get("depth") and st.mon.get("pre") is not None:
            res = []
            for s in self.around(eng, st, node):
                res += Meanwhile.call(self, eng, s, name, base, args, kwargs, node)
            return res
        return Meanwhile.call(self, eng, st, name, base, args, kwargs, node)

    def settle(self, eng, z, where, what):
        """The terminal has been started, and waits for output."""
        if z.mon.get("child") != "parent" or z.mon.get("broken"):
            return
        self.report.count("terminals")
        a, b = z.mon.get("applied"), z.mon["asked"]
        self.report.check(a == b, RULE, where, "%s: the terminal has %s where %s was asked for last" % (what, named(a), named(b)), z.path(),
                          key=what)


def named(x):
    return "no size" if x is None else "%s columns and %s lines" % x


def distinct(states):
    seen = {}
    for z in states:
        z = z.copy()
        z.facts = {}
        seen.setdefault(z.key(), z)
    return list(seen.values())


def run(ctx):
    ctx.rule("a terminal is opened with any size and with none; its thread is followed up to where it waits for output with a "
             "request to resize handled before, after, or as a whole at any point of it (reads and writes of shared attributes, the "
             "fork, the setting of a size), and a request with all of this happening at any point of it: the size last set on the "
             "pseudo terminal (lines, columns) is the one last asked for.  Messages that can't be decoded or are of "
             "another type set none")
    ctx.assume("a size asked for differs from the last one; sizes are pairs of numbers that the terminal can have")
    mon = Sizes(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    for st, client, manager in world(eng):
        mon.root = st.cur
        done = set()
        for given in (size("given"), None):
            for s in opened(eng, st, manager, given):
                cbs = [c[1][2] for c in s.mon.get("callbacks", ()) if len(c[1]) > 2 and c[1][2] not in (None, NONE)]
                if not cbs:
                    ctx.bad(RULE, "on opening a terminal", "nothing is called for control messages", s.path(), key="no callback")
                    continue
                mon.handlers = cbs
                for t in s.mon["started"]:
                    mon.body = t
                    s = s.setmon(started=(), failed=(), depth=0, pre=None, insider=(), applied=None, broken=None, cut=None,
                                 next=("window_resize", size("asked for")), asked=given or (const(80), const(24)))
                    if s.key() not in done:
                        done.add(s.key())
                        terminal(ctx, eng, mon, s, manager if given is None else None)
    ctx.need("second terminals", 1)
    ctx.need("terminals", 5)
    ctx.need("interruptions", 5)
    ctx.need("sizes set", 3)


def opened(eng, st, manager, given, add=True):
    res = []
    for s, _ in eng.invoke_method(st, manager, "add_terminal", (const(NAME), COMMAND)).rets if add else [(st, None)]:
        s = s.setmon(phase="instruction", slots=(), changes=0, said=(), refused=0, started=(), failed=(), child=None, depth=0, pre=None,
                     next=None, asked=None)
        values, fields = {"name": const(NAME)}, ["name", "port"]
        if given:
            s, l = eng.new(s, HObj("list", items=tuple(given)), eng.NODE, "size")
            values["size"] = l
            fields.append("size")
        for z, _ in instruct(eng, s, manager, "open-terminal", values=values, fields=fields).rets:
            if z.mon.get("failed") or z.mon.get("refused") or not z.mon.get("started"):
                continue
            z = z.setmon(phase="thread", changes=0, said=())
            z.facts = {}
            z.trace = None
            res.append(z)
    if not res:
        raise AnalysisError("opening a terminal starts no thread")
    return res


def waiting(eng, mon, st):
    """The states in which the thread, started from st, waits for output."""
    out = mon.thread(eng, st.setmon(cut=1), 1)
    return [z.setmon(cut=None) for z in distinct([e[0] for e in out.exits])]


def second(ctx, eng, mon, z, manager):
    """Another terminal, opened without a size after one that had none was resized."""
    cbs = mon.handlers, mon.body
    z = z.copy()
    z.frames = {mon.root: z.frames[mon.root]}
    z.cur, z.held = mon.root, ()
    for s in distinct(opened(eng, z.setmon(callbacks=()), manager, None, add=False)):
        mon.handlers = [c[1][2] for c in s.mon.get("callbacks", ()) if len(c[1]) > 2 and c[1][2] not in (None, NONE)]
        for t in s.mon["started"]:
            mon.body = t
            s = s.setmon(started=(), failed=(), depth=0, pre=None, insider=(), applied=None, broken=None, cut=None,
                         asked=(const(80), const(24)))
            for y in waiting(eng, mon, s):
                ctx.count("second terminals")
                mon.settle(eng, y, "when a terminal has started", "a terminal opened after another was resized")
    mon.handlers, mon.body = cbs


def terminal(ctx, eng, mon, st, manager=None):
    begins = waiting(eng, mon, st)
    if not begins:
        raise AnalysisError("the thread of a terminal does not wait for output")
    for z in begins:
        mon.settle(eng, z, "when a terminal has started", "a terminal that starts")
        if manager is not None:
            for y, x in mon.control(eng, z, 5):
                if x is None and not y.mon.get("broken"):
                    second(ctx, eng, mon, y, manager)
    # it starts, and is resized meanwhile or afterwards
    for z in waiting(eng, mon, st.setmon(pre="control")):
        if z.mon.get("pre"):
            after(ctx, eng, mon, z.setmon(pre=None), "resizing a running terminal", 2)
        else:
            mon.settle(eng, z, "when a terminal has started", "resizing a terminal while it starts")
            after(ctx, eng, mon, z.setmon(next=("window_resize", size("asked for again"))), "resizing a terminal again", 4)
    # it is resized, and starts meanwhile or afterwards
    for z in distinct([mon.handled(eng, z, x) for z, x in mon.control(eng, st.setmon(pre="start"), 1)]):
        for y in waiting(eng, mon, z.setmon(pre=None)) if z.mon.get("pre") else [z]:
            mon.settle(eng, y, "when a terminal has started", "resizing a terminal before or while it starts")
    for kind in ("unknown type", "undecodable"):
        for z in begins:
            for y, x in mon.control(eng, z.setmon(next=(kind, size("ignored"))), 2):
                mon.settle(eng, y, "when a control message has been handled", "a message that asks for no size")


def after(ctx, eng, mon, z, what, step):
    for y, x in mon.control(eng, z, step):
        mon.handled(eng, y, x)
        mon.settle(eng, y, "when a request to resize has been handled", what)
