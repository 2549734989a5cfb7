"""Terminal processes are hung up and reaped, and nothing else is signalled."""

import ast

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE
from ..instr import world, run_thread
from ..term import Terms, Meanwhile, PID, step_node
from ..world import param_syms, is_log
from ..linear import by_pairs
from ..engine import Monitor
from ..program import AnalysisError

KILLS = ("kill", "killpg", "pthread_kill", "raise_signal", "terminate", "send_signal", "tgkill", "pidfd_send_signal")
NO_RAISE = ("time.sleep", "time.time", "time.monotonic", "shlex.split", "select.poll", ".register", "os.close")


class Signals(Meanwhile):
    """mon.pre: what may yet happen at any point ("close" or "thread"), mon.depth: it is happening; mon.insider: locks held by
    the thread that is interrupted; mon.hup, killed, reaped, waits: what was done to the process."""

    def decide(self, eng, st, t):
        r = Terms.decide(self, eng, st, t)
        return by_pairs(st, t) if r is None and t.op == "cmp" else r

    def raises(self, eng, st, name, base, args, kwargs):
        if name in NO_RAISE:
            return []
        return Terms.raises(self, eng, st, name, base, args, kwargs)

    def forked(self, eng, st, node):
        # what the child does is another property's
        return [(st.setmon(child="parent"), PID)]

    def meanwhile(self, eng, st, what):
        out = self.close(eng, st, 3) if what == "close" else self.thread(eng, st, 3)
        return [z for z, _ in out.rets] + [z for z, _ in out.raises]

    def close(self, eng, st, step):
        out = eng.newout()
        node = step_node(step)
        todo = [st]
        for f in self.closers:
            nxt = []
            for s in todo:
                sub = eng.newout()
                nxt += [z for z, _ in eng.call_value(s, f, (), (), node, sub)]
                out.exits.extend(sub.exits)
                # an error of the callback is logged by the channel
                nxt += [z for z, _ in sub.raises]
            todo = nxt
        out.rets.extend((z, NONE) for z in todo)
        out.rets[:] = eng.merge_vals(out.rets)
        return out

    def event(self, eng, st, what, ch, args, node):
        return Terms.event(self, eng, st, what, ch, args, node) if what == "set_callbacks" else st

    def call(self, eng, st, name, base, args, kwargs, node):
        where = eng.loc(st, node)
        r = self.report
        if name in ("os.kill", "os.killpg"):
            res = []
            for s in self.around(eng, st, node):
                r.count("signals")
                a = args[0]
                if name == "os.killpg" and is_call(a, "os.getpgid"):
                    a = a.args[2][0]
                if not r.check(a is const(PID) or is_call(a, "os.getpid"), "no other process is signalled", where,
                               "%s is signalled" % (a if a is not NONE else "a process that was not started"), s.path(), key="target"):
                    continue
                self.sites.add(where)
                r.check(not s.mon.get("reaped"), "a process that was reaped is left alone", where,
                        "a signal is sent after the process has been reaped", s.path(), key="reaped")
                if not (len(args) > 1 and is_const(args[1])):
                    raise AnalysisError("an unknown signal is sent at %s" % where)
                if cval(args[1]) == 1:
                    r.check(not s.mon.get("hup"), "a hang-up is sent once", where, "it is sent a second time", s.path(), key="twice")
                    s = s.setmon(hup=1)
                elif cval(args[1]) == 9:
                    r.check(s.mon.get("waits") and s.mon.get("hup"), "a kill is sent to a process that lingers only", where,
                            "the process is killed without a hang-up and waiting for it", s.path(), key="early kill")
                    s = s.setmon(killed=1)
                res.append(("ret", s, NONE))
            return res
        if name == "os.waitpid":
            res = []
            for s in self.around(eng, st, node):
                r.count("waits")
                r.check(args[0] is const(PID), "no other process is reaped", where, "%s is waited for" % args[0], s.path(),
                        key="wait for other")
                r.check(not s.mon.get("reaped"), "a process that was reaped is left alone", where,
                        "it is waited for after the process has been reaped", s.path(), key="reaped wait")
                f = args[1] if len(args) > 1 else None
                if f is None or not is_const(f):
                    raise AnalysisError("waitpid() with unknown flags at %s" % where)
                code = call("exit code", None, (), (), eng.uid(s, node))
                if s.mon.get("killed"):
                    s = s.setmon(killed="waited for")
                z = eng.purge(s, code).setmon(waits=1, reaped=1)
                res.append(("ret", z, mk("tuple", (const(PID), code))))
                if cval(f) & 1:
                    res.append(("ret", s.setmon(waits=1), mk("tuple", (const(0), const(0)))))
                else:
                    r.check(s.mon.get("killed"), "a process that lingers is killed", where,
                            "it is waited for, however long that takes, without having been killed", s.path(), key="lingers")
            return res
        if name in ("time.time", "time.monotonic"):
            t = call(name, None, (), (), eng.uid(st, node))
            s = eng.purge(st, t)
            last = st.mon.get("clock")
            if last is not None and last is not t:
                s = s.setfact(mk("cmp", "le", last, t), True)
            return [("ret", s.setmon(clock=t), t)]
        if name in ("os.wait", "os.wait3", "os.wait4", "os.waitid"):
            raise AnalysisError("%s is called" % name)
        if name in ("pty.fork", "os.fork", "os.forkpty") and not st.mon.get("depth") and st.mon.get("pre") is not None:
            res = []
            for s in self.around(eng, st, node):
                res += Terms.call(self, eng, s, name, base, args, kwargs, node)
            return res
        return Terms.call(self, eng, st, name, base, args, kwargs, node)


def run(ctx):
    ctx.rule("the thread of an opened terminal and the closing of its channel are followed with either one happening as a whole at "
             "any point (reads of shared attributes, locks, calls that matter) of the other, or a second closing at any point of the "
             "first; then the threads these start: once there is a process and the channel was closed, exactly one SIGHUP was "
             "sent, it is then waited for (by a thread, if that starts) until reaped or killed; no signal and no wait follows "
             "the reaping or goes elsewhere.  Every other place that sends signals signals the agent itself or a command it started")
    ctx.assume("signals to a child that was not reaped succeed; two threads interrupt each other once at most; the clock does not go back while a process is waited for")
    mon = Signals(ctx)
    mon.sites = set()
    eng = ctx.engine(mon)
    mon.prepare(eng)
    mon.root = eng.start("dataplicity.m2mmanager").cur
    for st, client, manager in world(eng):
        mon.root = st.cur
        done = set()
        for s in mon.threads(eng, st, manager):
            s = s.setmon(hup=0, killed=0, reaped=0, waits=0, depth=0, pre=None, insider=(), clock=None)
            mon.closers = [c[1][1] for c in s.mon.get("callbacks", ()) if len(c[1]) > 1 and c[1][1] not in (None, NONE)]
            if not mon.closers:
                ctx.bad("closing the channel hangs up the process", "on opening a terminal",
                        "nothing is called when the channel of a terminal closes", s.path(), key="no callback")
                continue
            for t in s.mon["started"]:
                if (t, s.key()) in done:
                    continue
                done.add((t, s.key()))
                mon.body = t
                terminal(ctx, eng, s.setmon(started=(), failed=()))
    others(ctx, eng, mon)
    ctx.need("processes closed", 3)
    ctx.need("interruptions", 10)
    ctx.need("signals", 2)
    ctx.need("waits", 2)
    ctx.need("signal sites", 3)


def ends(eng, out):
    if out.exits:
        raise AnalysisError("a terminal ends the process")
    return [z for z, _ in out.rets] + [z for z, _ in out.raises]


def distinct(states):
    seen = {}
    for z in states:
        z = z.copy()
        z.facts = {}
        seen.setdefault(z.key(), z)
    return list(seen.values())


def terminal(ctx, eng, st):
    mon = eng.mon
    last = []
    # it runs, and the channel closes meanwhile or afterwards
    for z in distinct(ends(eng, mon.thread(eng, st.setmon(pre="close"), 1))):
        last += ends(eng, mon.close(eng, z.setmon(pre=None), 2)) if z.mon.get("pre") else [z]
        if z.mon.get("pre"):
            # and is closed twice at once
            for y in distinct(ends(eng, mon.close(eng, z, 2))):
                last.append(y.setmon(pre=None))
    # the channel closes, and it starts and runs meanwhile or afterwards
    for z in distinct(ends(eng, mon.close(eng, st.setmon(pre="thread"), 1))):
        last += ends(eng, mon.thread(eng, z.setmon(pre=None), 2)) if z.mon.get("pre") else [z]
    for z in distinct(last):
        finish(ctx, eng, z.setmon(pre=None, depth=0))


def finish(ctx, eng, z):
    where = "after the channel of a terminal has closed"
    if z.mon.get("child") != "parent":
        ctx.count("not started")
        return
    ctx.count("processes closed")
    ctx.check(z.mon["hup"] or z.mon["reaped"], "closing the channel hangs up the process", where,
              "no hang-up was sent to its process", z.path(), key="no hang-up")
    if not (z.mon["hup"] or z.mon["reaped"]):
        return
    states = [z]
    for i, t in enumerate(z.mon.get("started", ())):
        nxt = []
        for s in states:
            s.facts = {}
            nxt += ends(eng, run_thread(eng, s, t, step=5 + i))
        states = distinct(nxt)
    for s in states:
        lost = bool(s.mon.get("failed"))
        ctx.check(s.mon["waits"] or lost, "the process is waited for", where, "nothing waits for it", s.path(), key="no wait")
        if s.mon["waits"]:
            ctx.check(s.mon["reaped"] or s.mon["killed"], "a process that lingers is killed", where,
                      "waiting for it ends without it being reaped or killed", s.path(), key="lingers")
            ctx.check(s.mon["reaped"] or s.mon["killed"] != 1, "a process that was killed is reaped", where,
                      "it is killed but not waited for after that", s.path(), key="killed, not reaped")
        # closing again does nothing
        ends(eng, eng.mon.close(eng, s, 20))


class Others(Monitor):
    """Any other place that sends a signal. passed: what is signalled is given by the caller."""

    def __init__(self, ctx, args):
        self.ctx = ctx
        self.args = args
        self.passed = False
        self.alarms = []

    def raises(self, eng, st, name, base, args, kwargs):
        return [] if is_log(name, base) else None

    def call(self, eng, st, name, base, args, kwargs, node):
        last = name.split(".")[-1]
        if last in KILLS and not (name in eng.funcs):
            where = eng.loc(st, node)
            self.ctx.count("signal sites")
            t = base if name.startswith(".") else (args[0] if args else NONE)
            if name.startswith("."):
                good = any(is_call(x, "subprocess.Popen") for x in subterms(t))
            else:
                good = is_call(t, "os.getpid") or t.op == "attr" and t.args[1] == "pid" and is_call(t.args[0], "subprocess.Popen") \
                    or is_call(t, "os.getpgid") and t.args[2] and t.args[2][0] is const(0) or is_call(t, "os.getpgrp")
            if not good and any(x in self.args for x in subterms(t)):
                self.passed = True
            self.alarms.append((good, where, "%s is signalled" % t, st.path()))
            return [("ret", st, NONE)]
        return None


def called(n):
    f = n.func if isinstance(n, ast.Call) else None
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def others(ctx, eng, mon):
    for qual, fn in sorted(eng.funcs.items()):
        sites = [n for n in ast.walk(fn.node) if called(n) in KILLS]
        if "<locals>" in qual or not sites:
            continue
        if all("%s:%d" % (eng.mods[fn.module].rel, n.lineno) in mon.sites for n in sites) and qual in eng.stats["functions"]:
            ctx.count("signal sites")
            continue
        own = [n for n in sites if not (isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)
                                        and n.func.value.id == "self" and fn.cls and eng.class_attr(fn.cls, n.func.attr))]
        if own:
            other(ctx, eng, qual, set())


def other(ctx, eng, qual, done):
    """Run the function for itself; if it signals what it is given, run its callers instead."""
    from ..world import make

    fn = eng.funcs[qual]
    done.add(qual)
    args = tuple(param_syms(eng, qual, skip=0 if fn.cls is None else 1))
    m = Others(ctx, args)
    e = ctx.engine(m)
    st = e.start(fn.module)
    if fn.cls is not None:
        for s, r in make(e, st, fn.cls):
            e.invoke_method(s, r, fn.node.name, args)
    else:
        e.invoke(st, mk("func", qual, None), args)
    if m.passed:
        callers = [q for q, f in sorted(eng.funcs.items()) if "<locals>" not in q and q not in done
                   and any(called(n) == fn.node.name for n in ast.walk(f.node))]
        if callers:
            for q in callers:
                other(ctx, eng, q, done)
            return
    for good, where, what, path in m.alarms:
        ctx.check(good, "no other process is signalled", where, what, path, key="target")
