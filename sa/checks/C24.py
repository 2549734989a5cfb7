"""Only instructed programs are run, and only commands go through a shell."""

import ast

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE
from ..instr import world, instruct, run_thread, innermost, is_field, FIELDS
from ..term import Terms, COMMAND, NAME
from ..world import param_syms, make, is_log
from ..engine import Monitor
from ..program import AnalysisError

SUB = ("Popen", "run", "call", "check_call", "check_output", "getoutput", "getstatusoutput")
SHELLS = ("os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput", "commands.getoutput",
          "commands.getstatusoutput")
OTHER = ("os.posix_spawn", "os.posix_spawnp", "pty.spawn", "asyncio.create_subprocess_shell",
         "asyncio.create_subprocess_exec", "os.startfile")
RUNS = ("eval", "exec", "execfile", "code.interact")


def sink(name):
    return name.startswith(("subprocess.", "commands.")) and name.split(".")[-1] in SUB or name in SHELLS + OTHER + RUNS or \
        name.startswith(("os.exec", "os.spawn", "os.popen"))


def parts(eng, st, t):
    """The terms a value is made of, lists and dictionaries opened."""
    res, seen, work = [], set(), [t]
    while work:
        t = work.pop()
        for x in subterms(t):
            if x in seen:
                continue
            seen.add(x)
            res.append(x)
            o = eng.obj(st, x) if x.op == "ref" else None
            if o is None:
                continue
            work.extend(o.taint)
            if isinstance(o.items, dict):
                work.extend(v for kv in o.items.items() for v in kv if isinstance(v, T))
            elif o.items is not None:
                work.extend(o.items)
    return res


def values(args, kwargs):
    return [a for a in args] + [v for _, v in kwargs]


class Programs(Terms):

    def raises(self, eng, st, name, base, args, kwargs):
        return Terms.raises(self, eng, st, name, base, args, kwargs)

    def call(self, eng, st, name, base, args, kwargs, node):
        if sink(name):
            return self.program(eng, st, name, args, kwargs, node)
        return Terms.call(self, eng, st, name, base, args, kwargs, node)

    def program(self, eng, st, name, args, kwargs, node):
        r = self.report
        where = eng.loc(st, node)
        action = st.mon["action"]
        self.sites.add(where)
        r.count("programs started")
        kw = dict(kwargs)
        sh = kw.get("shell")
        if name == "subprocess.Popen" and len(args) > 8:
            sh = args[8]
        shell = name in SHELLS or sh is not None and not (is_const(sh) and not cval(sh))
        what = args[0] if args else kw.get("args")
        things = [x for v in values(args, kwargs) for x in parts(eng, st, v)]
        fields = [x for x in things if x.op == "sym" and str(x.args[0]).startswith("field:")]
        rule = "only the programs instructed are run"
        if name in RUNS:
            r.check(not fields, "only the programs instructed are run", where, "%s is applied to data of the server" % name, st.path(),
                    key="%s %s" % (action, name))
        elif action == "run-command":
            r.count("commands")
            x = innermost(what) if what is not None else NONE
            o = eng.obj(st, x) if x.op == "ref" else None
            if o is not None and o.items is not None or x.op == "tuple":
                xs = list(o.items if o is not None else x.args[0])
                good = xs and innermost(xs[-1]) is self.command and all(is_const(y) for y in xs[:-1])
            else:
                good = x is self.command
            r.check(good, rule, where, "not the command of the instruction is run: %s" % what, st.path(), key="command")
            r.check(all(x is self.command for x in fields), "no data from the server gets into other arguments", where,
                    "%s is given to the command" % [x for x in fields if x is not self.command][:1], st.path(), key="command fields")
        elif action == "open-terminal":
            r.count("terminals")
            # a terminal without a command gets the user's shell
            good = [x for x in things if x is COMMAND or x in self.commands or x.op == "ext" and x.args[0].startswith("os.environ") or
                    is_call(x, "os.getenv")]
            r.check(name.startswith("os.exec") and good, rule, where, "%s starts %s, not the command of the terminal" % (name, what),
                    st.path(), key="terminal")
            r.check(not fields, "no data from the server gets into other arguments", where, "%s is given to the terminal's command" % (
                fields[:1],), st.path(), key="terminal fields")
            r.check(not shell and not any(is_const(x) and cval(x) == "-c" for x in things), "only commands go through a shell", where,
                    "the terminal's command is given to a shell", st.path(), key="terminal shell")
        elif action == "reboot-device":
            r.count("reboots")
            words = constants(eng, st, what)
            r.check(words is not None and bool(words) and words[-1].split("/")[-1] in ("reboot", "shutdown", "now", "-r", "-h",
                                                                                   "--reboot", "-f"), rule, where,
                    "rebooting starts %s" % (words if words is not None else what), st.path(), key="reboot")
            r.check(not fields, "no data from the server gets into other arguments", where, "%s is given to the reboot command" % (
                fields[:1],), st.path(), key="reboot fields")
            r.check(not shell, "only commands go through a shell", where, "the reboot command is given to a shell", st.path(),
                    key="reboot shell")
        else:
            r.bad(rule, where, "%s is started on the instruction %s" % (what, action), st.path(), key="other %s" % action)
        if name.startswith("os.exec"):
            return [("exit", st, name), self.exc(eng, st, node)]
        t = call(name, None, tuple(args), tuple(kwargs), eng.uid(st, node))
        return [("ret", eng.purge(st, t), t), self.exc(eng, st, node)]

    def event(self, eng, st, what, ch, args, node):
        return Terms.event(self, eng, st, what, ch, args, node) if what == "set_callbacks" else st


def place(eng, fn, n):
    return "%s:%d" % (eng.mods[fn.module].rel, n.lineno)


def constants(eng, st, what):
    o = eng.obj(st, what) if what is not None and what.op == "ref" else None
    if o is not None and o.items is not None and not isinstance(o.items, dict):
        xs = list(o.items)
    elif what is not None and what.op == "tuple":
        xs = list(what.args[0])
    elif what is not None and is_const(what):
        v = cval(what)
        return list(v) if isinstance(v, tuple) else v.split() if isinstance(v, str) else None
    else:
        return None
    return [cval(x) for x in xs] if all(is_const(x) and isinstance(cval(x), str) for x in xs) else None


def run(ctx):
    ctx.rule("every instruction, and the threads and callbacks it starts, is followed to the calls that start a program or interpret "
             "code: a run-command instruction starts the instruction's text and nothing else with it; opening a terminal executes "
             "the terminal's command; a reboot instruction starts a constant reboot command; other instructions start nothing; "
             "no field of the instruction occurs in the arguments otherwise; a shell is used for commands only.  Any other such "
             "call is in the tags module and gets only constants and the environment, without a shell")
    ctx.assume("lomond starts no programs")
    mon = Programs(ctx)
    mon.sites = set()
    mon.command = None
    eng = ctx.engine(mon)
    mon.prepare(eng)
    from ..instr import field
    mon.command = field("command")
    direct = {}
    for st, client, manager in world(eng):
        mon.commands = frozenset()
        for action in sorted(FIELDS):
            instructed(ctx, eng, st.setmon(action=action), client, manager, action)
        # a terminal of any name, and any other action
        mon.commands = frozenset(v for o in st.heap.values() if o.kind == "inst" for v in o.items.values()
                              if isinstance(v, T) and is_const(v) and isinstance(cval(v), str) and len(cval(v)) > 2)
        instructed(ctx, eng, st.setmon(action="open-terminal"), client, manager, "open-terminal", {})
        other = sym("another action", "str")
        for a in FIELDS:
            st = st.setfact(eng.mkeq(other, const(a)), False)
        instructed(ctx, eng, st.setmon(action="not known"), client, manager, "", {"action": other})
    elsewhere(ctx, eng, mon)
    for n in ("commands", "terminals", "reboots", "tags"):
        ctx.need(n, 1)


def instructed(ctx, eng, st, client, manager, action, vals=None):
    mon = eng.mon
    st = st.setmon(phase="instruction", slots=(), changes=0, said=(), refused=0, child=None)
    if action == "open-terminal":
        starts = [s for s, _ in eng.invoke_method(st, manager, "add_terminal", (const(NAME), COMMAND)).rets]
        vals = {"name": const(NAME)} if vals is None else vals
    else:
        starts = [st]
    ctx.count("instructions")
    done = set()
    for s0 in starts:
        out = instruct(eng, s0, manager, action, values=vals)
        for s, _ in out.rets:
            for i, t in enumerate(s.mon.get("started", ())):
                z = s.setmon(phase="thread", changes=0)
                z.facts = {}
                z.trace = None
                k = (t, z.key())
                if k in done:
                    continue
                done.add(k)
                ctx.count("threads")
                run_thread(eng, z, t, step=i + 1)
            for ch, cbs in s.mon.get("callbacks", ()):
                for j, f in enumerate(cbs):
                    z = s.setmon(phase="callback", changes=0)
                    z.facts = {}
                    z.trace = None
                    if f is None or f.op not in ("bound", "func") or (f, z.key()) in done:
                        continue
                    done.add((f, z.key()))
                    ctx.count("callbacks")
                    eng.invoke(z, f, () if j == 1 else (sym("field:channel data", "bytes"),))


class Elsewhere(Monitor):

    def __init__(self, ctx):
        self.ctx = ctx

    def raises(self, eng, st, name, base, args, kwargs):
        return [] if is_log(name, base) else None

    def call(self, eng, st, name, base, args, kwargs, node):
        if not sink(name):
            return None
        r = self.ctx
        where = eng.loc(st, node)
        r.count("tags")
        things = [x for v in values(args, kwargs) for x in parts(eng, st, v)]
        kw = dict(kwargs)
        sh = kw.get("shell")
        shell = name in SHELLS or sh is not None and not (is_const(sh) and not cval(sh))
        tags = any(is_const(x) and isinstance(cval(x), str) and "dataplicity_tags" in cval(x) for x in things)
        r.check(tags, "only the programs instructed are run", where, "%s is started" % (args[0] if args else name), st.path(),
                key="elsewhere")
        unknown = [x for x in things if x.op in ("sym", "some", "any") or x.op == "call" and x.args[0] not in (
            "os.getenv", "os.path.join", "os.path.expanduser", ".get", ".split", "shlex.split", "os.path.abspath",
            "os.path.realpath", "os.path.normpath", "str", "list", ".format", "os.environ.get", "os.environ.copy", ".copy", "dict")]
        r.check(not unknown, "no data from the server gets into other arguments", where, "%s is given to it" % unknown[:1], st.path(),
                key="elsewhere arguments")
        r.check(not shell, "only commands go through a shell", where, "the tag script is given to a shell", st.path(), key="elsewhere shell")
        t = call(name, None, tuple(args), tuple(kwargs), eng.uid(st, node))
        return [("ret", eng.purge(st, t), t)]


def entries(eng, qual, depth=4):
    """The function, or what calls it if it has parameters."""
    fn = eng.funcs[qual]
    if depth == 0 or not param_syms(eng, qual, skip=0 if fn.cls is None else 1):
        return [qual]
    name = getattr(fn.node, "name", "")
    users = sorted(q for q, o in eng.funcs.items() if q != qual and "<locals>" not in q and any(
        isinstance(n, ast.Name) and n.id == name or isinstance(n, ast.Attribute) and n.attr == name for n in ast.walk(o.node)))
    return [x for u in users for x in entries(eng, u, depth - 1)] if 0 < len(users) <= 6 else [qual]


def elsewhere(ctx, eng, mon):
    """Call sites that no instruction reaches."""
    imported = {}
    for m in eng.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and n.module in ("subprocess", "os", "pty", "commands") and not n.level:
                for a in n.names:
                    imported.setdefault(m.name, {})[a.asname or a.name] = "%s.%s" % (n.module, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    imported.setdefault(m.name, {})[a.asname or a.name] = a.name

    def resolved(f, mod):
        if isinstance(f, ast.Name):
            return imported.get(mod, {}).get(f.id, f.id)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            return "%s.%s" % (imported.get(mod, {}).get(f.value.id, f.value.id), f.attr)
        return ""

    rebooting = set()
    for qual, fn in sorted(eng.funcs.items()):
        sites = [n for n in ast.walk(fn.node) if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load)
                 and sink(resolved(n, fn.module))]
        sites = [n for n in sites if place(eng, fn, n) not in mon.sites]
        if "<locals>" in qual or not sites:
            continue
        before = ctx.counts.get("tags", 0)
        for q in entries(eng, qual):
            e = ctx.engine(Elsewhere(ctx))
            f = e.funcs[q]
            st = e.start(f.module)
            if f.cls is not None:
                for s, r in make(e, st, f.cls):
                    e.invoke_method(s, r, f.node.name, tuple(param_syms(e, q)))
            else:
                e.invoke(st, mk("func", q, None), tuple(param_syms(e, q, skip=0)))
        if ctx.counts.get("tags", 0) == before:
            ctx.bad("only the programs instructed are run", "%s:%d" % (eng.mods[fn.module].rel, sites[0].lineno),
                    "%s is used otherwise than by a call" % ast.unparse(sites[0]), key="use " + qual)
    # code at the level of a module
    for m in eng.mods.values():
        inner = set()
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                inner.update(id(x) for x in ast.walk(n))
        for n in ast.walk(m.tree):
            if id(n) not in inner and isinstance(n, ast.Call) and sink(resolved(n.func, m.name)):
                ctx.bad("only the programs instructed are run", "%s:%d" % (m.rel, n.lineno), "a program is started on import",
                        key="module " + m.name)
    # what starts the reboot is called for a reboot instruction only
    names = {}
    for q, fn in eng.funcs.items():
        names.setdefault(fn.node.name if hasattr(fn.node, "name") else "", []).append(q)
    starters = [q for q, fn in eng.funcs.items() if any(
        isinstance(n, ast.Call) and place(eng, fn, n) in mon.sites for n in ast.walk(fn.node))]
    for q in starters:
        name = getattr(eng.funcs[q].node, "name", "")
        if len(names.get(name, ())) != 1 or name == "__init__":
            continue
        for o, fn in eng.funcs.items():
            if o in eng.stats["functions"] or o == q:
                continue
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Attribute) and n.attr == name or isinstance(n, ast.Name) and n.id == name:
                    ctx.bad("only the programs instructed are run", "%s:%d" % (eng.mods[fn.module].rel, n.lineno),
                            "%s, which starts a program, is used outside of instructions" % name, key="used %s %s" % (o, name))
