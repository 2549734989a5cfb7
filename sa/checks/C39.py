"""Services relay what they read, whole and unchanged, on their own channel."""

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE
from ..instr import world, instruct, run_thread
from ..polls import Polls, IN, PRI, HUP, ERR
from ..linear import poly, sub, add
from ..term import Terms, PID, FD
from ..world import is_log, const_of
from ..program import AnalysisError
from .C19 import is_asked

TECHNIQUE = ("typestate of the data read (read, written, end) over every path of the relaying threads and callbacks, "
             "with every result of waiting, reading and (partly) writing")

READS = (".recv", ".recvfrom")
COPIES = ("bytes", "bytearray", "memoryview")
PATH = sym("field:path", "str")


def plain(t):
    while t is not None and (t.op == "call" and t.args[0] in COPIES and len(t.args[2]) == 1 and not t.args[3]
                             or is_call(t, ".tobytes")):
        t = t.args[2][0] if t.args[0] in COPIES else t.args[1]
    return t


class Outgoing(Polls):
    """mon.data: read and not yet written; mon.over: why it may end."""

    kind = None

    def forked(self, eng, st):
        return [(st.setmon(child="parent"), PID)]

    def raises(self, eng, st, name, base, args, kwargs):
        if name in ("array.array", "fcntl.ioctl", "shlex.split", "os.close", "time.time", "os.kill"):
            return []
        return Polls.raises(self, eng, st, name, base, args, kwargs)

    def again(self, eng, st, node):
        r, where = self.report, eng.loc(st, node)
        over = st.mon.get("over")
        r.check(over is None, "a service does not wait on after its end", where, "it waits although %s" % over, st.path(),
                key="waits on: %s" % over)
        self.pending(eng, st, node, "it waits again")
        r.count("waits")

    def pending(self, eng, st, node, what):
        self.report.check(st.mon.get("data") is None, "all that is read is relayed", eng.loc(st, node),
                          "%s with data read and not written" % what, st.path(), key="kept back")

    def brought(self, eng, st, pairs):
        s = Polls.brought(self, eng, st, pairs)
        s = s.setmon(hung=int(any(m & (HUP | ERR) for _, m in pairs)), soft=None)
        return self.ended(s, "it hung up or failed, with nothing left to read") if s.mon["hup"] else s

    def data(self, eng, st, node, what, fails="OSError", exact=True):
        self.report.count("reads")
        self.pending(eng, st, node, "it reads on")
        d = call("data of " + what, None, (), (), eng.uid(st, node))
        s = eng.purge(st, d).setfact(d, True)
        return [("ret", s.setmon(data=d), d), ("ret", self.ended(st, "%s has ended" % what), const(b"")),
                self.exc(eng, self.ended(st, "reading failed"), node, fails, exact)]

    def call(self, eng, st, name, base, args, kwargs, node):
        if st.mon.get("phase") == "thread":
            if name in ("pty.fork", "os.fork", "os.forkpty"):
                res = [self.exc(eng, self.ended(st, "there is no process"), node)]
                for s, pid in self.forked(eng, st):
                    v = const(pid) if name == "os.fork" else mk("tuple", (const(pid), const(FD)))
                    res.append(("ret", s, v))
                return res
            if name == "os.read":
                self.report.check(args[:1] == (const(FD),), "only what is to be relayed is read", eng.loc(st, node),
                                  "%s is read" % args[0], st.path(), key="source")
                res = self.data(eng, st, node, "the terminal")
                if not st.mon.get("hung"):
                    # nothing to read for now (the end is an error, or comes with a hang-up)
                    res[1] = ("ret", st.setmon(soft="nothing was read"), const(b""))
                return res
            if name in READS and base is not None and base.op != "ref":
                return self.data(eng, st, node, "the connection", "ConnectionResetError")
            if name == ".connect" and base is not None and base.op != "ref":
                return [("ret", st, NONE)] + [self.exc(eng, self.ended(st, "the connection failed"), node, n)
                                              for n in ("ConnectionRefusedError", "socket.timeout")]
            if name in ("open", "io.open", "os.open"):
                self.report.count("files opened")
                kw = dict(kwargs)
                path = args[0] if args else kw.get("file", NONE)
                mode = args[1] if len(args) > 1 else kw.get("mode", const("r"))
                self.report.check(name == "os.open" or is_const(mode) and "b" in str(cval(mode)) and "r" in str(cval(mode))
                                  and "+" not in str(cval(mode)), "files are read as they are", eng.loc(st, node),
                                  "it is opened with mode %s" % mode, st.path(), key="mode")
                self.report.check(self.asked_for(eng, st, path), "the file that was asked for is read", eng.loc(st, node),
                                  "%s is opened" % path, st.path(), key="path")
                t = call("file", None, (path,), ())
                return [("ret", st, t), self.exc(eng, self.ended(st, "it can't be opened"), node, "IOError", False)]
            if name in (".read", ".readline", ".read1") and is_call(base, "file") if base is not None else False:
                res = self.data(eng, st, node, "the file")
                if name == ".read" and (not args or args[0] in (NONE, const(-1))):
                    res[0] = ("ret", self.ended(res[0][1], "the file has ended"), res[0][2])
                return res
            if name in (".is_set", ".isSet") and base is not None and not self.ours(eng, st, base):
                return [("ret", st, FALSE), ("ret", self.ended(st, "all services end"), TRUE)]
            if name in (".seek", ".truncate", ".readlines", ".readinto") and base is not None and is_call(base, "file"):
                raise AnalysisError("%s of a file" % name)
        return Polls.call(self, eng, st, name, base, args, kwargs, node)

    def ours(self, eng, st, b):
        o = eng.obj(st, b) if b.op == "ref" else None
        return o is not None and o.kind == "inst" and o.cls in eng.classes and not str(o.cls).startswith("ext:")

    def asked_for(self, eng, st, path):
        start = [v for f, v in st.facts.items() if is_call(f, ".startswith") and has_path(f.args[1])]
        if path is PATH or is_field_path(path):
            return False not in start
        parts = list(path.args[0]) if path.op == "fmt" else list(path.args[2]) if is_call(path, "os.path.join") else []
        return len(parts) == 2 and parts[0] is const("/") and (parts[1] is PATH or is_field_path(parts[1])) and (
            True not in start or is_call(path, "os.path.join"))

    def event(self, eng, st, what, ch, args, node):
        if st.mon.get("phase") == "thread" and what == "write":
            r, where = self.report, eng.loc(st, node)
            a, d = plain(args[0]), st.mon.get("data")
            if a is not None and is_const(a) and cval(a) == b"" and d is None:
                return st
            r.count("writes")
            r.check(a is not None and a is d, "what is read is relayed unchanged", where,
                    "%s is written%s" % (a, "" if d is None else ", what was read is %s" % d), st.path(), key="changed")
            r.check(is_asked(eng, st, ch, self.kind), "data goes to the service's own channel", where,
                    "it is written to %s" % ch, st.path(), key="channel")
            return st.setmon(data=None)
        return Polls.event(self, eng, st, what, ch, args, node) if what == "set_callbacks" else st

    def writing_failed(self, st):
        return self.ended(st, "writing failed").setmon(threw=1)


def has_path(t):
    return t is not None and any(x is PATH or is_field_path(x) for x in subterms(t))


def is_field_path(t):
    """The path of the instruction, as text."""
    if t.op == "sym":
        return "path" in str(t.args[0])
    if is_call(t, ".decode", "str", "os.fsdecode"):
        return is_field_path(t.args[1] if t.args[0] == ".decode" else t.args[2][0])
    return t.op == "attr" and False


class Incoming(Polls):
    """A terminal's input. mon.done: bytes of it written so far (a polynomial as sorted tuple), mon.all: nothing is left."""

    D = sym("input", "bytes")

    def raises(self, eng, st, name, base, args, kwargs):
        if name in ("len",) + COPIES:
            return []
        return Polls.raises(self, eng, st, name, base, args, kwargs)

    def offset(self, t):
        """t as (start) of a rest of the input, or None."""
        t = plain(t)
        if t is self.D:
            return {}
        if t.op == "slice" and t.args[2] in (NONE,) and t.args[3:] in ((), (NONE,)):
            o = self.offset(t.args[0])
            if o is None:
                return None
            return o if t.args[1] is NONE else add(o, poly(t.args[1]))
        return None

    def length(self, p):
        """A polynomial with lengths of rests replaced."""
        r = {}
        for k, v in p.items():
            if k is not None and is_call(k, "len") and self.offset(k.args[2][0]) is not None:
                r = add(r, {"L": v})
                r = add(r, {a: -v * w for a, w in self.offset(k.args[2][0]).items()})
            else:
                r = add(r, {k: v})
        return r

    def decide(self, eng, st, t):
        done = st.mon.get("done")
        if done is None:
            return None
        done = dict(done)
        rest = add({"L": 1}, {k: -v for k, v in done.items()})      # > 0 unless all is written
        o = self.offset(t) if t.op in ("slice", "call", "sym") else None
        if o is not None and o == done:
            return not st.mon["all"]
        if is_call(t, "len") and self.offset(t.args[2][0]) == done:
            return not st.mon["all"]
        if t.op == "cmp" and t.args[0] in ("lt", "le", "gt", "ge", "eq"):
            op, a, b = t.args
            if not all(isinstance(x, T) for x in (a, b)):
                return None
            d = self.length(sub(poly(a), poly(b)))
            for s in (1, -1):
                if d == {k: s * v for k, v in rest.items()}:
                    c = 0 if st.mon["all"] else s
                    return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0, "eq": c == 0}[op]
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        if name == "os.write" and st.mon.get("done") is not None:
            r, where = self.report, eng.loc(st, node)
            r.count("inputs written")
            r.check(args[0] is const(FD), "input goes to the terminal's process", where, "it is written to %s" % args[0], st.path(),
                    key="descriptor")
            o = self.offset(args[1])
            done = dict(st.mon["done"])
            good = o is not None and o == done and not st.mon["all"]
            r.check(good, "input is written in order, once", where, "%s is written, from %s on" % (args[1], pshow(done)), st.path(),
                    key="order")
            if not good:
                return []
            n = sym("written%d" % st.mon["turn"], "int")
            s = st.setmon(done=tuple(sorted(add(done, {n: 1}).items(), key=str)), turn=st.mon["turn"] + 1)
            s = s.setfact(n, True)
            res = [("ret", s.setmon(all=1), n)]
            if st.mon["turn"] < 1:
                res.append(("ret", s, n))
            res.append(self.exc(eng, st.setmon(threw=1), node))
            return res
        return Polls.call(self, eng, st, name, base, args, kwargs, node)

    def event(self, eng, st, what, ch, args, node):
        if what == "close":
            return st.setmon(closed=1)
        return Polls.event(self, eng, st, what, ch, args, node) if what == "set_callbacks" else st


def pshow(p):
    return " + ".join(str(k) for k in p) or "the start"


def run(ctx):
    ctx.rule("the threads of a terminal, a forwarded connection and a file transfer are followed with every result of opening, "
             "waiting, reading and writing: each piece read is written next, the same, to the channel of the instruction, before "
             "anything else is read or the service waits or ends; it ends only after an end of data, a hang-up with nothing left "
             "to read, a failure or the close of its channel. Data given to an open terminal is written to its process from start "
             "to end with writes taking any part, or the channel is closed; data for the echo service is written back")
    ctx.assume("a terminal or socket that hangs up with data left reports that data as readable; commands are C21's, data for "
               "connections C17's")
    mon = Outgoing(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    for st, client, manager in world(eng):
        for action in ("open-portforward", "open-portredirect", "read-file"):
            s0 = mon.fresh(st.setmon(phase="instruction", slots=(), changes=0))
            outgoing(ctx, eng, action, [s for s, _ in instruct(eng, s0, manager, action).rets])
        s0 = mon.fresh(st.setmon(phase="instruction", slots=(), changes=0))
        outgoing(ctx, eng, "open-terminal", Terms.threads(mon, eng, s0, manager))
    ctx.need("services", 4)
    ctx.need("reads", 3)
    ctx.need("writes", 3)
    ctx.need("files opened", 1)
    incoming(ctx)


def outgoing(ctx, eng, action, states):
    mon = eng.mon
    mon.kind = action
    done = set()
    for s in states:
        if not s.mon.get("started") or s.mon.get("failed"):
            continue
        s = mon.fresh(s).setmon(phase="thread", changes=0, data=None, threw=0, child=None, hung=0, soft=None)
        s.facts = {}
        s.trace = None
        if s.key() in done:
            continue
        done.add(s.key())
        for i, t in enumerate(s.mon["started"]):
            ctx.count("services")
            out = run_thread(eng, s, t, step=i + 1)
            where = "the thread of %s" % action
            for z, x in [(z, None) for z, _ in out.rets] + list(out.raises):
                over = z.mon.get("over")
                if x is None:
                    ctx.check(over is not None or z.mon.get("soft"), "a service relays until the end", where, "it ends before the end of data, any "
                              "failure and the close of its channel", z.path(), key=action)
                if not z.mon.get("threw") and over != "its channel has closed":
                    ctx.check(z.mon.get("data") is None, "all that is read is relayed", where,
                              "it ends with data read and not written", z.path(), key=action + " at its end")


def incoming(ctx):
    mon = Incoming(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    rp = eng.find_class("RemoteProcess", "dataplicity.m2m.remoteprocess")
    for st, client, manager in world(eng):
        s0 = mon.fresh(st.setmon(phase="instruction", slots=(), changes=0))
        for s in Terms.threads(mon, eng, s0, manager):
            for ch, cbs in s.mon.get("callbacks", ()):
                terminal(ctx, eng, s, cbs)
        s0 = mon.fresh(st.setmon(phase="instruction", slots=(), changes=0))
        echo(ctx, eng, s0, manager)
    ctx.need("inputs", 1)
    ctx.need("inputs before the process starts", 1)
    ctx.need("echoes", 1)


def terminal(ctx, eng, s, cbs):
    mon = eng.mon
    t = s.mon["started"]
    if not cbs or not isinstance(cbs[0], T) or cbs[0] is NONE:
        ctx.bad("input is written in order, once", "on opening a terminal", "nothing takes its input", s.path(), key="no callback")
        return
    # the terminal as its process runs
    obj = cbs[0].args[1] if cbs[0].op == "bound" else None
    o = eng.obj(s, obj) if obj is not None else None
    if o is None:
        raise AnalysisError("the input of a terminal is taken by %s" % cbs[0])
    early(ctx, eng, s, cbs[0])
    names = [k for k, v in running(ctx, eng, s, obj).items() if v is const(FD)]
    if not names:
        raise AnalysisError("the descriptor of a terminal is not found")
    for k in names:
        s = s.setobj(obj.args[0], eng.obj(s, obj).set_item(k, const(FD)))
    ctx.count("inputs")
    s = s.setmon(done=(), all=0, turn=0, threw=0, closed=0, phase="input")
    s.facts = {}
    out = eng.invoke(s, cbs[0], (mon.D,), ())
    where = "input for a terminal"
    for z, x in [(z, None) for z, _ in out.rets] + list(out.raises):
        bad = not z.mon["all"]
        ctx.check(not bad or z.mon.get("closed"), "input is written completely, or the terminal is closed", where,
                  "%s of it is written, and the channel stays open" % ("none" if not z.mon["done"] else "a part"), z.path(),
                  key="partly")
        if not z.mon.get("threw"):
            ctx.check(not bad, "input is written completely, or the terminal is closed", where,
                      "not all of it is written, though nothing failed", z.path(), key="not all")
    ctx.check(bool(out.rets), "input is written in order, once", where, "it is never taken", key="never")


def early(ctx, eng, s, cb):
    """Input that comes before there is a process for it is not lost silently."""
    mon = eng.mon
    s = s.setmon(done=(), all=0, turn=0, threw=0, closed=0, phase="input")
    s.facts = {}
    out = eng.invoke(s, cb, (mon.D,), ())
    ctx.count("inputs before the process starts")
    for z, x in [(z, None) for z, _ in out.rets] + list(out.raises):
        kept = any(mon.D in subterms(v) for o in z.heap.values() if o.items
                   for v in (o.items.values() if isinstance(o.items, dict) else o.items) if isinstance(v, T))
        ctx.check(z.mon.get("closed") or kept, "input is written completely, or the terminal is closed",
                  "input before the process of a terminal has started",
                  "it is neither kept nor written, and the channel stays open" + (" (%s is raised)" % x[0] if x else ""), z.path(),
                  key="early")


def running(ctx, eng, s, obj):
    """The attributes of a terminal while its process runs."""
    class Until(Outgoing):
        found = None

        def wait(self, e, st, node):
            self.found = dict(e.obj(st, obj).items)
            return []
    old = eng.mon
    m = Until(ctx)
    m.__dict__.update({k: v for k, v in old.__dict__.items() if k != "found"})
    eng.mon = m
    m.kind = "open-terminal"
    try:
        z = m.fresh(s).setmon(phase="thread", data=None, child=None, hung=0, soft=None)
        run_thread(eng, z, s.mon["started"][0], step=1)
    finally:
        eng.mon = old
    if m.found is None:
        raise AnalysisError("a terminal never waits for output")
    return m.found


def echo(ctx, eng, s0, manager):
    class Back(Incoming):
        def event(self, e, st, what, ch, args, node):
            if what == "write":
                return st.setmon(wrote=st.mon.get("wrote", ()) + ((ch, plain(args[0])),))
            return Polls.event(self, e, st, what, ch, args, node) if what == "set_callbacks" else st
    old = eng.mon
    m = Back(ctx)
    m.__dict__.update(old.__dict__)
    eng.mon = m
    m.write_fails = False
    try:
        for s, _ in instruct(eng, s0, manager, "open-echo").rets:
            for ch, cbs in s.mon.get("callbacks", ()):
                if not cbs or cbs[0] in (None, NONE):
                    continue
                ctx.count("echoes")
                d = sym("echoed", "bytes")
                out = eng.invoke(s.setmon(wrote=()), cbs[0], (d,), ())
                for z, _ in out.rets:
                    ctx.check(z.mon["wrote"] == ((ch, d),), "the echo service sends data back", "the echo service",
                              "%s is written" % (z.mon["wrote"],), z.path())
                ctx.check(bool(out.rets), "the echo service sends data back", "the echo service", "nothing is")
    finally:
        eng.mon = old
