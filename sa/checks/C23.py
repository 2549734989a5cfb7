"""A terminal's child process runs its command or dies, with no extra privilege."""

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE
from ..instr import world, run_thread
from ..term import Terms, COMMAND, USER, GROUP
from ..program import AnalysisError

SET = {"os.setgid": ("group", 0), "os.setregid": ("group", 1), "os.setresgid": ("group", 1),
       "os.setuid": ("user", 0), "os.setreuid": ("user", 1), "os.setresuid": ("user", 1)}
WEAK = {"os.setegid": "group", "os.seteuid": "user"}
LOOKUP = {"group": ("grp.getgrnam", "gr_gid", 2), "user": ("pwd.getpwnam", "pw_uid", 2)}
PRIMARY = ("pw_gid", 3)


class Child(Terms):

    def number(self, t, kind, wanted):
        """Is t the number of the group/user with this name?"""
        fn, attr, i = LOOKUP[kind]
        if t.op == "attr" and t.args[1] == attr:
            t = t.args[0]
        elif t.op == "item" and is_const(t.args[1]) and cval(t.args[1]) == i:
            t = t.args[0]
        else:
            return False
        return is_call(t, fn) and bool(t.args[2]) and t.args[2][0] is wanted

    def call(self, eng, st, name, base, args, kwargs, node):
        where = eng.loc(st, node)
        child = st.mon.get("child") == "child"
        r = self.report
        if name.startswith("os.exec"):
            r.check(child, "the agent itself is never replaced", where, "%s is called outside of the child" % name, st.path())
            if child:
                r.count("commands run")
                for kind in ("group", "user"):
                    want = st.mon["want_" + kind]
                    got = st.mon.get("set_" + kind)
                    r.check(want is NONE or got is not None, "the command runs as the %s of the terminal" % kind, where,
                            "the command is run without having switched to the %s" % kind, st.path(), key=kind)
                self.ran(eng, st, name, args, where)
            return [("exit", st, name), self.exc(eng, st, node)]
        if name in ("os._exit", "os.abort"):
            r.check(child, "the agent itself is never ended by a terminal", where, "%s is called outside of the child" % name,
                    st.path())
            return [("exit", st, name)]
        if name in ("os.kill",) and child and args and args[0] is const(0):
            raise AnalysisError("the child signals its group")
        if name in SET or name in WEAK:
            kind = SET[name][0] if name in SET else WEAK[name]
            ok = child and (name in WEAK or all(self.number(a, kind, st.mon["want_" + kind]) for a in args))
            r.count("switches")
            r.check(child, "only the child changes its user and group", where, "the agent itself calls %s" % name, st.path())
            if not ok and child:
                r.bad("the command runs as the %s of the terminal" % kind, where, "%s is called with %s" % (
                    name, ", ".join(map(str, args))), st.path(), key=kind)
            s = st
            if name in SET:
                if kind == "group":
                    r.check(st.mon.get("set_user") is None, "the group is switched first", where,
                            "the group is switched after the user, which is no longer allowed", st.path())
                s = st.setmon(**{"set_" + kind: 1})
            return [("ret", s, NONE), self.exc(eng, st, node, "PermissionError")]
        if name in ("grp.getgrnam", "pwd.getpwnam"):
            t = call(name, None, tuple(args), (), None)
            return [("ret", st, t), self.exc(eng, st, node, "KeyError", True)]
        if child and name in ("os.fork", "pty.fork", "os.forkpty"):
            r.bad("the child does not go on as an agent", where, "it forks", st.path())
        return Terms.call(self, eng, st, name, base, args, kwargs, node)

    def ran(self, eng, st, name, args, where):
        r = self.report
        v = "v" in name.split("exec")[-1]      # execv...: the arguments are a list
        argv = args[1:]
        if v:
            items = eng.known_items(st, argv[0]) if argv and argv[0].op in ("ref", "tuple") else None
            argv = (mk("star", argv[0]),) if items is None and argv else tuple(items or ())
        parts = [p for x in argv for p in self.part(x)]
        prog = self.part(args[0]) if args else []
        said = "%s is called with %s" % (name, ", ".join(map(str, args)))
        whole = parts == ["all"] or parts[:1] == ["first"] and parts[1:] == ["rest"] or "command" in parts
        shell = bool(parts) and parts[0] == "shell" and not {"all", "first", "rest", "piece"} & set(parts)
        strange = "strange" in parts + prog
        words = call("shlex.split", None, (COMMAND,))
        if v and items is None and argv and argv[0].args[0].op == "ref":
            # a list put together in some other way
            o = eng.obj(st, argv[0].args[0])
            strange = bool(o is not None and any(x is COMMAND for t in o.taint for x in subterms(t)))
            r.check(strange, "the command of the terminal is run", where, said, st.path(), key="arguments")
            return
        r.check(not shell or eng.decide(st, words) is False or eng.decide(st, COMMAND) is False,
                "the command of the terminal is run", where, "the shell is run though there is a command", st.path(), key="shell")
        r.check(whole or shell or strange and any(x is COMMAND for a in args for x in subterms(a)),
                "the command of the terminal is run", where, said, st.path(), key="arguments")
        r.check(strange or prog == (["shell"] if shell else ["first"]) or "command" in parts,
                "the command of the terminal is run", where, said, st.path(), key="program")

    def part(self, t):
        """What t (or each element of *t) is of the terminal's command: "all" of its words, the "first", the "rest", a
        "piece", the unsplit "command"; or the user's "shell"."""
        star = t.op == "star"
        x = t.args[0] if star else t
        while is_call(x, "list") or is_call(x, "tuple") or is_call(x, "os.path.basename"):
            x = x.args[2][0]
        if x is COMMAND:
            return ["command"]
        if x.op == "ext" and x.args[0].startswith("os.environ") or is_call(x, "os.getenv") \
                or any(y.op == "ext" and y.args[0].startswith("os.environ") for y in subterms(x)):
            return ["shell"]
        split = lambda y: is_call(y, "shlex.split") and y.args[2][:1] == (COMMAND,)
        if split(x):
            return ["all" if star else "strange"]
        if x.op in ("item", "slice") and split(x.args[0]):
            if x.op == "item" and not star:
                return ["first" if is_const(x.args[1]) and cval(x.args[1]) == 0 else "piece"]
            if star:
                lo, hi, by = (x.args[1:] + (NONE, NONE))[:3] if x.op == "slice" else (None, None, None)
                if hi is NONE and by in (NONE, const(1)) and lo in (NONE, const(0)):
                    return ["all"]
                return ["rest" if lo is const(1) and hi is NONE and by in (NONE, const(1)) else "piece"]
        if is_const(x):
            return ["text"]
        if not any(y is COMMAND for y in subterms(x)):
            return ["other"]
        return ["strange"]

    # the child does nothing else of the agent
    def event(self, eng, st, what, ch, args, node):
        self.agent(eng, st, what.replace("_", " ") + " on its channel", node)
        return Terms.event(self, eng, st, what, ch, args, node)

    def thread_start(self, eng, st, b, node):
        self.agent(eng, st, "the start of a thread", node)
        return Terms.thread_start(self, eng, st, b, node)

    def acquire(self, eng, st, lock, node):
        self.agent(eng, st, "waiting for a lock, which may be held by a thread that it does not have", node)
        return Terms.acquire(self, eng, st, lock, node)

    def agent(self, eng, st, what, node):
        if st.mon.get("child") == "child":
            self.report.bad("the child does not go on as an agent", eng.loc(st, node), "it goes on to %s" % what, st.path(),
                            key=what)


def run(ctx):
    ctx.rule("the thread of an opened terminal is followed into the child process that it forks, with the terminal's user and group "
             "configured or not, every lookup and switch failing or not: each path of the child ends in exec or _exit, having done "
             "nothing with channels, locks or threads; exec is reached only after a successful setgid to the number of the "
             "configured group and then setuid to that of the configured user, as far as configured; and is given the terminal's "
             "command (or the user's shell)")
    ctx.assume("pty.fork() returns 0 in the child; setgid/setuid change the identity or raise")
    mon = Child(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    for st, client, manager in world(eng):
        for user in (NONE, USER):
            for group in (NONE, GROUP):
                look(ctx, eng, st.setmon(want_user=user, want_group=group, set_user=None, set_group=None), manager, user, group)
    ctx.need("forks", 4)
    ctx.need("commands run", 4)
    ctx.need("children", 12)


def look(ctx, eng, st, manager, user, group):
    done = set()
    for s in eng.mon.threads(eng, st, manager, user, group):
        for i, t in enumerate(s.mon["started"]):
            if (t, s.key()) in done:
                continue
            done.add((t, s.key()))
            out = run_thread(eng, s, t, step=i + 1)
            for z, x in [(z, None) for z, _ in out.rets] + list(out.raises):
                if z.mon.get("child") == "child":
                    ctx.bad("the child does not go on as an agent", "thread of a terminal",
                            "the child comes to the end of the thread%s" % (" with " + x[0] if x else ""), z.path(), key="escape")
            for z, kind in out.exits:
                if z.mon.get("child") == "child":
                    ctx.count("children")
                    ctx.ok("the child becomes the command or exits", kind)
                else:
                    ctx.bad("the agent itself is never ended by a terminal", "thread of a terminal", "the process ends by %s" % kind,
                            z.path(), key="ended")
