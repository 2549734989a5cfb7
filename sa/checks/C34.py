"""C34: the exit status and messages of the program, and the rotation of the log file."""

import ast

from ..terms import mk, sym, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE
from ..engine import Monitor
from ..program import AnalysisError
from ..world import make, is_log, const_of

MODULE = "dataplicity.app"
TECHNIQUE = ("abstract interpretation of the entry point over every argument list and every outcome of the sub-command: exit status and "
             "message on each path, typestate of the log file's handler, exception flow through each sub-command")
NOTE = "argparse's own exits (usage error, --help, --version) are taken as documented"

STATUS = "the status is zero only if the sub-command completed"
MESSAGE = "a failure is told by a message"
TRACE = "no traceback unless asked for"
ROTATE = "a log file is rotated"
LEVELS = {"NOTSET", "DEBUG", "INFO", "WARN", "WARNING", "ERROR", "CRITICAL", "FATAL"}
SAY = (".print_help", ".print_usage", ".format_help")
DUMPS = ("traceback.print_exc", "traceback.print_exception", "traceback.print_last", "traceback.format_exc",
         "traceback.format_exception")
HANDLERS = ("FileHandler", "WatchedFileHandler", "TimedRotatingFileHandler", "RotatingFileHandler", "StreamHandler")


class Cli(Monitor):

    def __init__(self, ctx):
        self.ctx = ctx
        self.names = {}      # name -> class
        self.runs = {}       # its run method -> class

    def raises(self, eng, st, name, base, args, kwargs):
        return []

    def subscript_raises(self, eng, st, b, k):
        return not (any(x.op == "ext" and str(x.args[0]).startswith("sys.argv") or x.op == "attr" and x.args[-1] == "argv"
                        for x in subterms(b)) or is_call(b))

    def getattr(self, eng, st, b, name, node):
        if name == "subcommand" and args_of(b) and "chosen" in st.mon:
            c = st.mon["chosen"]
            return [(st, NONE if c == "" else const(c))]
        if name in ("log_level", "quiet") and args_of(b) and "level" in st.mon:
            c = st.mon["level"]
            if name == "quiet":
                return [(st, TRUE if c == "quiet" else FALSE)]
            return [(st, const("INFO") if c == "good" else sym("invalid level"))]
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        where = eng.loc(st, node)
        ctx = self.ctx
        short = name.split(".")[-1]
        if name in ("sys.exit", "exit", "quit", "os._exit"):
            v = args[0] if args else NONE
            if is_const(v) and isinstance(cval(v), str):        # written to stderr by the interpreter
                return [("raise", say(st, v), ("SystemExit", True, frozenset(), mk("code", const(1))))]
            return [("raise", st, ("SystemExit", True, frozenset(), mk("code", v)))]
        if name in (".parse_args", ".parse_known_args"):
            t = sym("args", where)
            return [("ret", st.setmon(chosen=n, level=v), t if name == ".parse_args" else mk("tuple", (t, sym("more", where))))
                    for n in [""] + sorted(self.names) for v in ("good", "bad", "quiet")]
        if name in self.runs:
            ctx.count("sub-commands run")
            ctx.check(self.runs[name] == self.names.get(st.mon.get("chosen")), "the sub-command run is the one that was chosen", where,
                      "%s is run for %r" % (name, st.mon.get("chosen")), st.path())
            self.level(eng, st, where)
            e = sym("error", "sub-command")
            return [("ret", st.setmon(done="completed"), NONE), ("ret", st.setmon(done="completed"), const(0)),
                    ("ret", st.setmon(done="failed"), const(3)),
                    ("raise", st.setmon(done="raised"), ("Exception", False, frozenset(), e)),
                    ("raise", st.setmon(done="raised"), ("OSError", True, frozenset(), e)),
                    ("raise", st.setmon(done="stopped"), ("KeyboardInterrupt", True, frozenset(), e))]
        if short == "write" and (base is not None and stream(base) or stream_name(name)):
            return [("ret", say(st, args[0] if args else NONE), sym("written", where))]
        if name == "print" or name.endswith("print_function"):
            return [("ret", say(st, args[0] if args else NONE), NONE)]
        if name in SAY:
            return [("ret", say(st, sym("usage", where)), sym("usage", where))]
        if name == ".error" and not is_log(name, base):
            return [("raise", say(st, sym("usage", where)), ("SystemExit", True, frozenset(), mk("code", const(2))))]
        if name in DUMPS:
            return [("ret", say(st.setmon(trace=where), sym("traceback", where)), sym("traceback", where))]
        if is_log(name, base) and (short == "exception" or any(k == "exc_info" and v is not FALSE and v is not NONE
                                                                for k, v in kwargs)):
            return [("ret", st.setmon(trace=where), NONE)]
        if name == "logging.config.dictConfig":
            return [("ret", self.config(eng, st, args[0] if args else None, where), NONE)]
        if short == "RotatingFileHandler" and name.startswith(("logging.", "handlers.")):
            kw = dict(kwargs)
            names = ("filename", "mode", "maxBytes", "backupCount")
            for i, a in enumerate(args):
                if i < len(names):
                    kw.setdefault(names[i], a)
            return [("ret", self.rotating(st, kw, where), sym("handler", where))]
        if short in HANDLERS and short != "StreamHandler" or name == "logging.basicConfig" and any(
                k in ("filename",) and v is not NONE for k, v in kwargs):
            ctx.bad(ROTATE, where, "the log file is written by %s, which never limits its size" % short)
            return [("ret", st.setmon(logged=1), sym("handler", where))]
        return None

    def level(self, eng, st, where):
        """The program only gets here with a valid log level, or --quiet."""
        self.ctx.check(st.mon["level"] != "bad", "an invalid log level is refused", where,
                       "the program goes on with a log level that is not known", st.path())

    def decide(self, eng, st, t):
        # an invalid level is none of the names of levels
        if t.op == "cmp" and t.args[0] == "eq":
            for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                if is_const(b) and any(x.op == "sym" and x.args[0] == "invalid level" for x in subterms(a)):
                    return False
        return None

    def config(self, eng, st, d, where):
        top = items(eng, st, d)
        hs = items(eng, st, (top or {}).get("handlers"))
        if hs is None:
            raise AnalysisError("%s: the logging configuration is not known" % where)
        for h, v in hs.items():
            it = items(eng, st, v) or {}
            if "filename" not in it:
                continue
            cls = it.get("class", it.get("()"))
            cname = str(const_of(cls) if const_of(cls) is not None else cls)
            if not cname.split(".")[-1].startswith("RotatingFileHandler"):
                self.ctx.bad(ROTATE, where, "the log file is written by %s, which does not limit its size" % cname)
                st = st.setmon(logged=1)
                continue
            st = self.rotating(st, it, where)
            used = items(eng, st, top.get("loggers")) or {}
            if "root" in top:
                used = dict(used, root=top["root"])
            names = [const_of(x) for l in used.values() for x in eng.iter_items(st, (items(eng, st, l) or {}).get("handlers", NONE)) or ()]
            self.ctx.check(h in names, ROTATE, where, "the handler of the log file is not used by a logger", key="handler unused")
        return st

    def rotating(self, st, kw, where):
        size, backups = const_of(kw.get("maxBytes", const(0))), const_of(kw.get("backupCount", const(0)))
        self.ctx.count("log files")
        self.ctx.check(isinstance(size, int) and size > 0 and isinstance(backups, int) and backups > 0, ROTATE, where,
                       "the log file is never rotated: maxBytes=%s, backupCount=%s" % (size, backups), st.path(), key="never rotated")
        return st.setmon(logged=1)


def items(eng, st, d):
    """The entries of a known dict, by constant key; None if not known."""
    o = eng.obj(st, d) if d is not None and d.op == "ref" else None
    if o is None or o.kind != "dict" or o.rest:
        return None
    return {const_of(k): v for k, v in o.items.items()}


def args_of(t):
    return t is not None and hasattr(t, "op") and any(x.op == "sym" and x.args[0] == "args" for x in subterms(t))


def is_arg(t, name):
    return hasattr(t, "op") and t.op == "attr" and t.args[-1] == name


def stream(b):
    return any(x.op == "ext" and x.args[0] in ("sys.stderr", "sys.stdout") or x.op == "attr" and x.args[-1] in ("stderr", "stdout")
               for x in subterms(b))


def stream_name(name):
    return name.startswith(("sys.stderr.", "sys.stdout."))


def say(st, v):
    empty = v is NONE or is_const(v) and str(cval(v)).strip() == ""
    return st if empty else st.setmon(said=1)


def status(v):
    """What the shell sees of sys.exit(v): 0, 1 (not zero) or None (not known)."""
    if v.op == "phi":
        r = {status(x) for x in v.args if hasattr(x, "op")}
        return r.pop() if len(r) == 1 else None
    if v is NONE or v is FALSE:
        return 0
    if v is TRUE:
        return 1
    if is_const(v):
        c = cval(v)
        return (1 if c & 0xFF else 0) if isinstance(c, int) else 1
    return None


def run(ctx):
    for r in (STATUS, MESSAGE, TRACE, ROTATE):
        ctx.rule(r + ", on every path of the entry point")
    ctx.rule("a sub-command lets its failures out: no failure of what it does ends in success")
    ctx.assume("argparse exits with a message by itself on a wrong argument list; the names it accepts are those of the table")
    mon = Cli(ctx)
    eng = ctx.engine(mon)
    f = mk("func", eng.find_func("main", MODULE), None)
    st = eng.start(MODULE)
    where = "dataplicity.app.main"
    st = registry(eng, st, mon)
    out = eng.invoke(st, f, ())
    for s, v in out.rets:
        end(ctx, eng, s, NONE if dropped(eng) else v, where)
    for s, x in out.raises:
        if x[0] == "SystemExit":
            v = x[3]
            if v is not None and v.op == "code":
                end(ctx, eng, s, v.args[0], where)
            elif v is not None and v.op in ("call", "excv"):
                a = v.args[2 if v.op == "call" else 1]
                if a and is_const(a[0]) and isinstance(cval(a[0]), str):
                    s = say(s, a[0])
                end(ctx, eng, s, a[0] if a else NONE, where)
            else:
                raise AnalysisError("the status of %s is not known" % (v,))
            continue
        # not caught: a traceback, and a status that is not zero
        debug = flag(s, "debug")
        if s.mon.get("done") == "raised":
            ctx.count("failing sub-commands")
            ctx.check(debug is True, TRACE, where, "%s of the sub-command leaves the program without --debug" % x[0], s.path(),
                      key="uncaught")
        elif s.mon.get("done") != "stopped":
            ctx.bad(MESSAGE, where, "%s ends the program" % x[0], s.path(), key="other " + x[0])
    ctx.need("sub-commands run", 1)
    ctx.need("failing sub-commands", 1)
    ctx.need("log files", 1)
    ctx.need("no sub-command", 1)
    ctx.need("invalid levels", 1)
    commands(ctx)


def dropped(eng):
    """Does python -m dataplicity drop what main returns?"""
    m = eng.mods.get("dataplicity.__main__")
    return m is not None and any(isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(
        n.value.func, "id", getattr(n.value.func, "attr", "")) == "main" for n in ast.walk(m.tree))


def flag(s, name):
    for k, v in s.facts.items():
        if is_arg(k, name):
            return v
    return None


def end(ctx, eng, s, v, where):
    """The program ends with sys.exit(v) (or main returning v)."""
    done = s.mon.get("done")
    vs = (eng.phi_leaves(v) if v.op == "phi" else None) or [v]
    for x in vs:
        code = status(x)
        if code is None:
            code = status(eng.canon(s, x))
        if done == "completed":
            ctx.count("completed sub-commands")
            ctx.check(code == 0, STATUS, where, "the status is %s although the sub-command completed" % (x,), s.path(), key="not 0")
            continue
        if done == "stopped":
            continue
        what = {"failed": "the sub-command returned a status", "raised": "the sub-command failed"}.get(
            done, "no sub-command was run")
        ctx.check(code == 1, STATUS, where, "the status may be zero although %s (sys.exit(%s))" % (what, x), s.path(),
                  key="0 " + str(done))
        if done == "failed":
            continue
        ctx.count("failing sub-commands" if done == "raised" else "invalid levels" if s.mon.get("level") == "bad" else "no sub-command")
        ctx.check(s.mon.get("said"), MESSAGE, where, "nothing is said although %s" % what, s.path(), key="silent " + str(done))
        if s.mon.get("trace"):
            ctx.check(flag(s, "debug") is True, TRACE, s.mon["trace"], "a traceback is written without --debug", s.path())


class Inside(Monitor):
    """A sub-command: whatever it uses may fail."""

    def __init__(self, ctx):
        self.ctx = ctx

    def call(self, eng, st, name, base, args, kwargs, node):
        if is_log(name, base):
            return [("ret", st, NONE)]
        return None

    def caught(self, eng, st, exc, handler, node):
        if exc[0] in ("KeyboardInterrupt", "SystemExit", "GeneratorExit"):
            return None
        return st.setmon(swallowed="%s at %s" % (exc[0], eng.loc(st, node)))


def subcommands(eng):
    base = eng.find_class("SubCommand", "dataplicity.subcommand")
    return [c for c in sorted(eng.classes) if c != base and base in eng.mro(c)]


def registry(eng, st, mon):
    """The table of sub-commands, as the metaclass fills it."""
    r = eng.global_value("dataplicity.subcommand", "registry")
    o = eng.obj(st, r) if r.op == "ref" else None
    if o is None or o.kind != "dict":
        raise AnalysisError("the table of sub-commands is not known")
    for cid in subcommands(eng):
        name = eng.classes[cid].name.lower()
        f = eng.class_attr(cid, "run")
        mon.names[name] = cid
        mon.runs[f.args[0]] = cid
        o = o.set_item(const(name), mk("class", cid))
    return st.setobj(r.args[0], o.with_(rest=False))


def commands(ctx):
    mon = Inside(ctx)
    eng = ctx.engine(mon)
    for cid in subcommands(eng):
        ctx.count("sub-commands")
        c = eng.classes[cid]
        st = eng.start(c.module)
        for s, me in make(eng, st, cid, (sym("app"),), havoc=False):
            out = eng.invoke_method(s, me, "run")
            ctx.check(bool(out.rets), "a sub-command lets its failures out", cid + ".run", "it never completes", key=cid + " ends")
            for t, v in out.rets:
                bad = t.mon.get("swallowed") and any(status(x) != 1 for x in (eng.phi_leaves(v) if v.op == "phi" else None) or [v])
                ctx.check(not bad, "a sub-command lets its failures out", cid + ".run",
                          "it completes although there was a failure: %s" % t.mon.get("swallowed"), t.path(), key=cid + " swallows")
    ctx.need("sub-commands", 2)
