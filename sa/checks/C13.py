"""Network waits of the agent are bounded."""

import ast
import math

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE
from ..engine import Monitor
from ..world import is_log, const_of
from .C09 import opens

SINKS = set("urlopen persist connect create_connection poll select check_output check_call call run communicate wait settimeout "
            "setblocking getaddrinfo connect_ex join sendall recv setdefaulttimeout".split())
COMMAND = ("subprocess.check_output", "subprocess.check_call", "subprocess.call", "subprocess.run", "communicate",
           "waiting for a command")
PROC = set("check_output check_call call run".split())


class Waits(Monitor):

    def __init__(self, ctx):
        self.ctx = ctx
        self.entry = None
        self.deferred = set()
        self.seen = {}

    def raises(self, eng, st, name, base, args, kwargs):
        if is_log(name, base):
            return []
        return None

    # a wait is bounded by a number
    def finite(self, eng, st, v, zero=False):
        if v is None:
            return False
        c = const_of(v)
        if isinstance(c, (int, float)) and not isinstance(c, bool):
            return math.isfinite(c) and (c > 0 or zero and c == 0)
        if v.op == "bin":
            return all(self.finite(eng, st, x, True) for x in v.args[1:] if isinstance(x, T))
        if is_call(v, "min"):
            return any(self.finite(eng, st, x, zero) for x in v.args[2])
        if is_call(v, "max", "int", "float", "abs", "round"):
            return all(self.finite(eng, st, x, zero) for x in v.args[2])
        if v.op == "phi":
            return all(self.finite(eng, st, x, zero) for x in eng.phi_leaves(v)) and bool(eng.phi_leaves(v))
        if v.op == "attr":
            vals = stores(eng, v.args[1])
            return bool(vals) and all(self.finite(eng, st, const(x), zero) if isinstance(x, (int, float)) else False for x in vals)
        return False

    def entry_param(self, *terms):
        return any(x.op == "sym" and str(x.args[0]).startswith("arg:") for t in terms if t is not None for x in subterms(t))

    def wait(self, eng, st, node, what, v, zero=False):
        q = eng.funcs_at(st) if hasattr(eng, "funcs_at") else where_func(st)
        ok = self.finite(eng, st, v, zero)
        if not ok and v is not None and self.entry_param(v):
            self.deferred.add(self.entry)
            return
        self.ctx.count("waits")
        self.ctx.check(ok, "every wait has a finite time limit", q, "%s waits %s" % (
            what, "without a time limit" if v is None or v is NONE else "for %s" % (v,)), st.path(),
            key="%s waits for a command" % q.split(":")[0] if what in COMMAND else "%s %s" % (q, what))

    def call(self, eng, st, name, base, args, kwargs, node):
        if name in eng.funcs or name in eng.classes:
            return None
        kw = dict(kwargs)
        last = name.split(".")[-1]
        if opens(name):
            self.wait(eng, st, node, "urlopen", kw.get("timeout", args[2] if len(args) > 2 else None))
        elif last == "persist" and not name.startswith("."):
            self.ctx.count("event loops")
            self.wait(eng, st, node, "the m2m connection", kw.get("ping_timeout", args[4] if len(args) > 4 else None))
            for k in ("ping_rate", "poll"):
                if k in kw:
                    self.wait(eng, st, node, "the m2m connection", kw[k])
        elif name == "select.select":
            self.wait(eng, st, node, "select", args[3] if len(args) > 3 else None, True)
        elif name == ".poll" and base is not None and (is_call(base, "select.poll", "select.epoll") or args or kw):
            self.wait(eng, st, node, "poll", args[0] if args else kw.get("timeout"), True)
        elif name == "socket.create_connection":
            self.wait(eng, st, node, "a connection attempt", kw.get("timeout", args[1] if len(args) > 1 else None))
        elif name in (".settimeout", "socket.setdefaulttimeout"):
            v = args[0] if args else None
            self.wait(eng, st, node, "a socket", v, True)
            if base is not None and self.finite(eng, st, v, True):
                st = st.setmon(limited=st.mon.get("limited", ()) + (base,))
                return [("cont", st)]
        elif name == ".setblocking":
            v = args[0] if args else None
            if const_of(v) is not False and const_of(v) != 0:
                self.wait(eng, st, node, "a socket", None)
        elif name in (".connect", ".connect_ex") and base is not None and (is_socket(base) or self.entry_param(base)):
            ok = base in st.mon.get("limited", ())
            if not ok and self.entry_param(base):
                self.deferred.add(self.entry)
            else:
                self.ctx.count("connection attempts")
                self.wait(eng, st, node, "a connection attempt", const(1) if ok else None)
        elif name.startswith("subprocess.") and last in PROC:
            self.wait(eng, st, node, "subprocess." + last, kw.get("timeout"))
        elif name in (".communicate",) and base is not None and not args:
            self.wait(eng, st, node, "communicate", kw.get("timeout"))
        elif name == ".wait" and base is not None and is_call(base, "subprocess.Popen"):
            self.wait(eng, st, node, "waiting for a command", kw.get("timeout", args[0] if args else None))
        elif name == "os.waitpid":
            v = args[1] if len(args) > 1 else None
            flag = v is not None and any(x.op in ("ext", "attr") and str(x.args[-1] if x.op == "attr" else x.args[0]).endswith(
                "WNOHANG") for x in subterms(v)) or const_of(v) == 1
            self.wait(eng, st, node, "waitpid", const(1) if flag else None)
        return None


def is_socket(t):
    return is_call(t, "socket.socket") or t.op == "attr" and "sock" in str(t.args[1])


def where_func(st):
    c = st.cur.split(">")[-1]
    return c.split("@")[0]


def stores(eng, name):
    """Constants stored in attributes of this name, anywhere (None if something else is)."""
    r = []
    for m in eng.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == name or isinstance(t, ast.Name) and t.id == name:
                        try:
                            r.append(eval(compile(ast.Expression(n.value), "?", "eval"), {"__builtins__": {}}))
                        except Exception:
                            return []
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name:
                return []
    return r


def called(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            f = n.func
            yield f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""


def run(ctx):
    ctx.rule("every function that makes a request, connects, polls, waits for a process or sets a socket's timeout is run (with its "
             "callers, where the limit is a parameter): each such wait has a limit that is a finite number; a socket has a "
             "timeout before it connects; the m2m connection has a ping timeout")
    ctx.assume("lomond closes a connection whose pings are not answered within ping_timeout; a timeout set on a socket holds for all its "
               "operations")
    mon = Waits(ctx)
    eng = ctx.engine(mon)
    todo = []
    for q in sorted(eng.funcs):
        if "<locals>" in q:
            continue
        if any(c in SINKS for c in called(eng.funcs[q].node)):
            todo.append(q)
    done = set()
    while todo:
        q = todo.pop(0)
        if q in done:
            continue
        done.add(q)
        f = eng.funcs[q]
        mon.entry = q
        ctx.count("functions run")
        decs = [d.id for d in f.node.decorator_list if isinstance(d, ast.Name)]
        params = [sym("arg:" + a.arg) for a in f.node.args.args]
        st = eng.start(q.split(":")[0])
        stub = Stub(mon, eng, set(todo) | done, q)
        eng.mon = stub
        try:
            if f.cls and "staticmethod" not in decs:
                me = mk("class", f.cls) if "classmethod" in decs else sym("self", f.cls)
                eng.invoke(st, mk("func", q, None), [me] + params[1:])
            else:
                eng.invoke(st, mk("func", q, None), params)
        finally:
            eng.mon = mon
        if q in mon.deferred:
            name = f.node.name
            for c in sorted(eng.funcs):
                if c not in done and c not in todo and name in set(called(eng.funcs[c].node)):
                    todo.append(c)
                    stub.follow.add(q)
    ctx.need("waits", 6)
    ctx.need("event loops", 1)
    ctx.need("connection attempts", 1)


class Stub(Waits):
    """Runs one function; others that are run on their own (or wait for nothing) are skipped."""

    def __init__(self, mon, eng, own, entry):
        self.__dict__.update(mon.__dict__)
        self.parent = mon
        self.own = own
        self.entry = entry
        self.follow = mon.__dict__.setdefault("follow", set())

    def call(self, eng, st, name, base, args, kwargs, node):
        if name in eng.funcs and not name == self.entry:
            if name in self.deferred or self.leads(eng, name):
                return None
            r = call(name, None, tuple(args), (), eng.uid(st, node))
            return [("ret", st, r), ("raise", st, ("Exception", False, frozenset(), mk(
                "exc", "Exception", False, eng.site(st, node), None)))]
        if name in eng.classes:
            return [("ret", st, call(name, None, tuple(args), tuple(kwargs), eng.uid(st, node)))]
        return Waits.call(self, eng, st, name, base, args, kwargs, node)

    def leads(self, eng, name):
        # socket set-up in a helper of its own
        return any(c in ("settimeout", "socket") for c in called(eng.funcs[name].node))
