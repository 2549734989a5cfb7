"""A remote command's output is relayed to its end and nothing is left running."""

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE
from ..instr import world, instruct, run_thread
from ..polls import Polls, IN, HUP, ERR
from ..program import AnalysisError

FD = {"stdout": 101, "stderr": 102}
OUT, ERRFD = const(101), const(102)


class Command(Polls):
    """mon.proc: None, "running", "done" or "killed"; mon.data: output read and not yet written; mon.order: what was told to
    the remote end at the end (k: completion notice, c: close)."""

    def fresh(self, st):
        return Polls.fresh(self, st).setmon(proc=None, data=None, order="", trouble=0)

    def results(self, eng, st, node):
        fds = st.mon["fds"]
        res = [[]]
        masks = (IN, IN | HUP, HUP, ERR)
        for fd in fds:
            res += [[(fd, m)] for m in masks]
        if len(fds) > 1:
            for a, b in ((fds[0], fds[1]), (fds[1], fds[0])):
                res += [[(a, m), (b, n)] for m in masks for n in masks]
        return res

    def brought(self, eng, st, pairs):
        s = Polls.brought(self, eng, st, pairs)
        return self.ended(s, "its output has hung up") if OUT in s.mon["hup"] else s

    def again(self, eng, st, node):
        Polls.again(self, eng, st, node)
        where = eng.loc(st, node)
        left = [f for f in st.mon.get("hup", ()) if f in st.mon.get("fds", ())]
        self.report.check(not left, "a hang-up never leaves the service looping", where,
                          "it polls again for a pipe that has hung up", st.path())
        self.report.check(st.mon.get("data") is None, "all output is written to the channel", where,
                          "it polls again with output read and not written", st.path(), key="output kept back")

    def popen(self, b):
        return b is not None and is_call(b, "subprocess.Popen")

    def call(self, eng, st, name, base, args, kwargs, node):
        where = eng.loc(st, node)
        if name == "subprocess.Popen":
            kw = dict(kwargs)
            for n in ("stdout", "stderr"):
                v = kw.get(n)
                self.report.count("pipes")
                if n == "stderr":
                    self.report.check(v is None or not (is_const(v) and cval(v) == -2), "nothing but output is relayed", where,
                                      "errors are mixed with the output", st.path(), key="stderr")
            t = call(name, None, tuple(args), tuple(kwargs), eng.uid(st, node))
            s = eng.purge(st, t)
            return [("ret", s.setmon(proc="running"), t), self.exc(eng, st.setmon(trouble=1), node)]
        if name == ".fileno" and base is not None and base.op == "attr" and base.args[1] in FD and self.popen(base.args[0]):
            return [("ret", st, const(FD[base.args[1]]))]
        if self.popen(base):
            if name in (".poll", ".wait", ".communicate"):
                rc = call("return code", base, (), (), eng.uid(st, node))
                s = eng.purge(st, rc)
                s = s.setfact(eng.mkeq(rc, NONE), False)
                if st.mon.get("proc") != "running":
                    return [("ret", s, rc)]
                res = [("ret", s.setmon(proc="done"), rc)]
                if name == ".poll":
                    res.append(("ret", st, NONE))
                return res
            if name in (".kill", ".terminate", ".send_signal"):
                ok = name == ".kill" or name == ".send_signal" and args and is_const(args[0]) and cval(args[0]) == 9
                s = st.setmon(proc="killed") if ok and st.mon.get("proc") == "running" else st
                return [("ret", s, NONE), self.exc(eng, s, node)]
        if name == "os.kill" and args and args[0].op == "attr" and self.popen(args[0].args[0]):
            s = st.setmon(proc="killed") if len(args) > 1 and is_const(args[1]) and cval(args[1]) == 9 else st
            return [("ret", s, NONE), self.exc(eng, s, node)]
        if name == "os.read":
            self.report.count("reads")
            fd = args[0]
            self.report.check(fd in st.mon.get("ready", ()), "only what is readable is read", where,
                              "a pipe is read that may have nothing to read", st.path())
            s = st.setmon(ready=tuple(f for f in st.mon.get("ready", ()) if f is not fd))
            d = call("output of %s" % fd, None, (), (), eng.uid(st, node))
            s1 = eng.purge(s, d).setfact(d, True)
            if fd is OUT:
                self.report.check(s.mon.get("data") is None, "all output is written to the channel", where,
                                  "output is read before the one before was written", st.path(), key="output lost")
                return [("ret", s1.setmon(data=d), d), ("ret", self.ended(s, "the output has ended"), const(b"")),
                        self.exc(eng, self.ended(s, "reading failed").setmon(trouble=1), node)]
            return [("ret", s1, d), ("ret", s, const(b"")), self.exc(eng, s.setmon(trouble=1), node)]
        return Polls.call(self, eng, st, name, base, args, kwargs, node)

    def wait(self, eng, st, node):
        res = Polls.wait(self, eng, st, node)
        return [("raise", r[1].setmon(trouble=1), r[2]) if r[0] == "raise" else r for r in res]

    def event(self, eng, st, what, ch, args, node):
        where = eng.loc(st, node)
        if st.mon.get("phase") != "thread":
            return Polls.event(self, eng, st, what, ch, args, node)
        if what == "write":
            self.report.count("writes")
            a = args[0]
            d = st.mon.get("data")
            self.report.check(a is not None and a is d, "the output and nothing else is written to the channel", where,
                              "%s is written%s" % (a, "" if d is None else ", the output read is %s" % d), st.path(), key="written")
            self.report.check("k" not in st.mon["order"] and "c" not in st.mon["order"], "the completion notice comes last",
                              where, "output is written after the end was told", st.path())
            return st.setmon(data=None)
        if what == "send_control":
            v = self.kind(eng, st, args[0])
            if v == "complete":
                self.report.check("c" not in st.mon["order"], "the completion notice precedes the close", where,
                                  "the channel is closed before the completion notice", st.path())
                self.report.check("k" not in st.mon["order"], "there is one completion notice", where,
                                  "the completion notice is sent twice", st.path())
                return st.setmon(order=(st.mon["order"] + "k")[:4])
        if what == "close":
            return st if st.mon["order"].endswith("c") else st.setmon(order=(st.mon["order"] + "c")[:4])
        return st

    def kind(self, eng, st, d):
        o = eng.obj(st, d) if d is not None and d.op == "ref" else None
        v = o.items.get(const("type")) if o is not None and o.kind == "dict" else None
        return cval(v) if v is not None and is_const(v) else None

    def writing_failed(self, st):
        return st.setmon(threw=1)


def run(ctx):
    ctx.rule("the thread of a run-command instruction is followed with every result of waiting (either pipe, or both in either "
             "order, readable, readable and hung up, hung up, failed), reading (data, end, error) and writing: what is written to the "
             "channel is each piece of standard output, once, before the next is read; only readable pipes are read; it never "
             "waits after the end of output, a hang-up of the output, a failure or the channel found closed, nor for a pipe that "
             "has hung up; it ends otherwise only for one of these reasons; at each end a started command was sent a completion "
             "notice for, before the close, and is known to have ended or was killed")
    ctx.assume("a pipe at its end polls as hung up; a killed process ends")
    mon = Command(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    for st, client, manager in world(eng):
        done = set()
        for s, _ in instruct(eng, mon.fresh(st.setmon(phase="instruction", slots=(), changes=0)), manager, "run-command").rets:
            if not s.mon.get("started") or s.mon.get("failed"):
                continue
            s = s.setmon(phase="thread", changes=0)
            s.facts = {}
            s.trace = None
            if s.key() in done:
                continue
            done.add(s.key())
            for i, t in enumerate(s.mon["started"]):
                out = run_thread(eng, s, t, step=i + 1)
                where = "the thread of run-command"
                ends = [(z, None) for z, _ in out.rets] + list(out.raises)
                if not ends:
                    ctx.bad("the service ends", where, "the thread never ends", s.path())
                for z, x in ends:
                    end(ctx, z, x, where)
    ctx.need("ends", 4)
    ctx.need("waits", 2)
    ctx.need("reads", 2)
    ctx.need("writes", 1)


def end(ctx, z, x, where):
    ctx.count("ends")
    p = z.mon.get("proc")
    ctx.check(p != "running", "nothing is left running", where, "the command may be left running at the end", z.path())
    if p is None:
        return
    o = z.mon["order"]
    ctx.check("k" in o, "completion is told", where, "the service ends without a completion notice", z.path())
    ctx.check("c" in o, "the channel is closed", where, "the service ends without closing its channel", z.path())
    if x is None and not z.mon.get("failing"):
        ctx.check(z.mon.get("over") is not None or z.mon.get("trouble") or z.mon.get("threw"),
                  "output is relayed to its end", where, "the service stops before the end of output", z.path())
        if not z.mon.get("threw") and not z.mon.get("trouble"):
            ctx.check(z.mon.get("data") is None, "all output is written to the channel", where,
                      "output read is not written at the end", z.path(), key="output kept back at the end")
