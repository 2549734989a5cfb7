"""The device auth token is disclosed to the API only."""

import ast

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE
from ..api import client, CLIENT, MODULE
from ..engine import Monitor
from ..world import is_log, is_pure, arg, const_of
from .C09 import opens

AUTH = "device.check_auth"
STOP = set("len bool isinstance issubclass hasattr callable type id hash urlopen".split())
CARRY = set("json.dumps json.dump str bytes repr dict list tuple set sorted min max map filter zip getattr six.text_type "
            "os.path.expanduser".split())


class Token(Monitor):

    def __init__(self, ctx):
        self.ctx = ctx
        self.sources = {"auth_token"}
        self.path = None
        self.local = set()
        self.texts = {}

    # ------------------------------------------------------------ what holds the token
    def tainted(self, eng, st, t, depth=0):
        if not isinstance(t, T) or depth > 12:
            return False
        op = t.op
        if op == "sym":
            return t.args[0] in ("Client.auth_token", "arg:auth_token")
        if op in ("const", "cmp", "not", "func", "class", "mod", "enum", "bound"):
            return False
        if op == "ext":
            return t.args[0] == "sys.argv"
        if op == "attr":
            if t.args[1] in self.sources:
                return True
            if t.args[1] == "argv" and t.args[0].op in ("ext", "mod") and t.args[0].args[0] == "sys":
                return True
            if t.args[1] == "__dict__":
                b = t.args[0]
                o = eng.obj(st, b) if b.op == "ref" else None
                if o is not None:
                    return any(self.tainted(eng, st, v, depth + 1) for v in o.items.values())
                return True
            return False
        if op == "item":
            if t.args[1] is const(0) and self.is_argv(t.args[0]):
                return False
            return self.tainted(eng, st, t.args[0], depth + 1)
        if op == "ref":
            o = eng.obj(st, t)
            if o is None or o.kind == "inst":
                return False
            vals = o.items.values() if isinstance(o.items, dict) else (o.items or ())
            return any(self.tainted(eng, st, v, depth + 1) for v in vals) or any(
                self.tainted(eng, st, v, depth + 1) for v in o.taint)
        if op == "call":
            n = t.args[0]
            if n in STOP or opens(n):
                return False
            if n == "vars" and t.args[2]:
                return self.tainted(eng, st, mk("attr", t.args[2][0], "__dict__"), depth + 1)
            if n.startswith(".read") and t.args[1] is not None and any(x is self.path for x in subterms(t.args[1])):
                return True
            if n == ".parse_args" or n == ".parse_known_args":
                return True
            kids = [t.args[1]] + list(t.args[2]) + [v for _, v in t.args[3]]
            return any(self.tainted(eng, st, k, depth + 1) for k in kids if k is not None)
        if op == "exc":
            return False
        return any(self.tainted(eng, st, x, depth + 1) for x in kids_of(t))

    def shown(self, eng, st, t, depth=0):
        """The instance in t whose text, when t is made text, contains the token."""
        if not isinstance(t, T) or depth > 8:
            return None
        if t.op in ("ref", "sym"):
            o = eng.obj(st, t) if t.op == "ref" else None
            cls = o.cls if o is not None and o.kind == "inst" else t.args[1] if t.op == "sym" and len(t.args) > 1 else None
            if cls in eng.classes:
                return t if self.discloses(eng, st, t, cls) else None
            if o is not None and o.kind in ("list", "dict", "set"):
                vals = o.items.values() if isinstance(o.items, dict) else (o.items or ())
                return next((x for x in (self.shown(eng, st, v, depth + 1) for v in list(vals) + list(o.taint)) if x), None)
            return None
        if t.op in ("bin", "fmt", "tuple") or is_call(t, "str", "repr", "ascii", ".format", ".join", "six.text_type"):
            return next((x for x in (self.shown(eng, st, v, depth + 1) for v in kids_of(t)) if x), None)
        return None

    def discloses(self, eng, st, t, cls):
        if cls in self.texts:
            return self.texts[cls]
        self.texts[cls] = False
        for m in ("__repr__", "__str__", "__unicode__", "__format__"):
            f = eng.class_attr(cls, m)
            if f is not None and f.op == "func":
                args = [sym("spec")] if m == "__format__" else []
                if any(self.tainted(eng, s, v) for s, v in eng.invoke_method(st, t, m, args).rets):
                    self.texts[cls] = True
        return self.texts[cls]

    def is_argv(self, t):
        return t.op == "ext" and t.args[0] == "sys.argv" or t.op == "attr" and t.args[1] == "argv"

    def raises(self, eng, st, name, base, args, kwargs):
        if is_log(name, base) or name.startswith("time.") or name.startswith("random."):
            return []
        return None

    # ------------------------------------------------------------ where it goes
    def call(self, eng, st, name, base, args, kwargs, node):
        vals = list(args) + [v for _, v in kwargs]
        if name in eng.funcs:
            mod = name.split(":")[0]
            hot = any(self.tainted(eng, st, v) for v in vals)
            if hot and name.endswith((":Batch.call_with_id", ":Batch.call", ":Batch.notify", ":JSONRPC.call",
                                      ":JSONRPC.notify")):
                m = const_of(arg(eng, name, args, kwargs, "method"))
                self.ctx.count("calls with the token")
                self.ctx.check(m == AUTH, "the token goes to the authentication call only", eng.loc(st, node),
                               "the token is a parameter of the API call %s" % m, st.path())
            if mod in self.local or hot or mentions(eng, name, self.sources):
                return None
            r = call(name, None, tuple(args), (), eng.uid(st, node))
            return [("ret", st, r), ("raise", st, ("Exception", False, frozenset(), mk(
                "exc", "Exception", False, eng.site(st, node), None)))]
        if name in eng.classes:
            if name.split(":")[0] in self.local or any(self.tainted(eng, st, v) for v in vals):
                return None
            return [("ret", st, call(name, None, tuple(args), (), eng.uid(st, node)))]
        self.ctx.count("external calls")
        if name in CARRY or is_pure(name):
            return None
        if base is not None and base.op == "ref" and eng.obj(st, base) is not None and eng.obj(st, base).kind != "inst":
            return None
        where = eng.loc(st, node)
        if opens(name):
            self.ctx.count("requests")
            self.ctx.check(not (args and self.tainted(eng, st, args[0])), "the token is not part of an address", where,
                           "the token is part of the address of a request", st.path())
            return None
        if name.endswith("parse_args") or name.endswith("parse_known_args"):
            return None
        if base is not None and name.startswith(".") and is_string_method(name) and not is_log(name, base):
            return None
        hot = [v for v in vals if self.tainted(eng, st, v)]
        if is_log(name, base) or name in ("print", ".write", "warnings.warn"):
            hot += [v for v in vals if self.shown(eng, st, v) is not None]
        if hot and name in (".call_with_id", ".call") and base is not None and base.op == "sym":
            # a batch of the caller
            self.ctx.check(any(const_of(v) == AUTH for v in vals), "the token goes to the authentication call only", where,
                           "the token is a parameter of another API call", st.path())
            return None
        self.ctx.check(not hot, "the token is given to no other function", where,
                       "%s is given the token or something that contains it" % name, st.path())
        return None

    def setitem(self, eng, st, b, k, v, node, out):
        if b.op != "ref" and self.tainted(eng, st, v):
            self.ctx.bad("the token is given to no other function", eng.loc(st, node), "%s is given the token" % (b,), st.path())
        return None

    def store(self, eng, st, b, name, v, node, out):
        if name not in self.sources and self.tainted(eng, st, v):
            self.sources.add(name)
        return None


def kids_of(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, T):
                    yield x
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T):
                            yield y


def is_string_method(name):
    return hasattr("", name[1:]) or hasattr(b"", name[1:])


def mentions(eng, q, names):
    return any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in names
               or isinstance(n, ast.Attribute) and n.attr == "argv"
               or isinstance(n, ast.Constant) and n.value == "auth_token"
               or isinstance(n, (ast.Attribute, ast.Name)) and (getattr(n, "attr", None) or getattr(n, "id", None)) == "AUTH_LOCATION"
               for n in ast.walk(eng.funcs[q].node))


def run(ctx):
    ctx.rule("the token is followed from the command line, its file and every attribute it is stored in, through every function "
             "that can reach it: the only calls it (or a value containing it) is given to are pure functions, the authentication "
             "call of a batch, and the body of an API request")
    ctx.assume("urllib does not disclose the body of a request in what it raises; argparse keeps the token in the arguments only")
    names = {"auth_token"}
    for turn in range(5):
        mon = Token(ctx)
        mon.sources = set(names)
        eng = ctx.engine(mon)
        mon.path = eng.global_value("dataplicity.constants", "AUTH_LOCATION")
        analyse(ctx, eng, mon)
        if mon.sources == names:
            break
        names = set(mon.sources)
    ctx.count("attributes that hold the token", len(names))
    ctx.need("requests", 1)
    ctx.need("calls with the token", 3)
    ctx.need("entries", 8)


def analyse(ctx, eng, mon):
    cid = eng.find_class("Client", CLIENT)
    rpc = eng.find_class("JSONRPC", MODULE)
    app = eng.find_class("App", "dataplicity.app")
    mon.local = {cid.split(":")[0], rpc.split(":")[0], app.split(":")[0]}
    methods = [q for q in sorted(eng.funcs) if mentions(eng, q, mon.sources)]
    made = client(eng)
    st = eng.start(CLIENT)
    # making a client
    out = eng.newout()
    eng.instantiate(st, mk("class", cid), (), tuple((k, sym("arg:" + k)) for k in (
        "rpc_url", "m2m_url", "serial", "auth_token", "remote_directory_path")), eng.NODE, out)
    ctx.count("entries")
    # methods of the client that make requests, and everything else that can reach the token
    todo = set(methods)
    for q in sorted(eng.funcs):
        f = eng.funcs[q]
        if f.cls == cid and any(isinstance(n, ast.Attribute) and n.attr in ("remote",) for n in ast.walk(f.node)):
            todo.add(q)
    for q in sorted(todo):
        f = eng.funcs[q]
        if f.node.name in ("__init__",) and f.cls == cid or "<locals>" in q:
            continue
        ctx.count("entries")
        params = [sym("arg:" + a.arg) for a in f.node.args.args]
        if f.cls == cid:
            for s0, me in made[:1]:
                eng.invoke_method(s0, me, f.node.name, params[1:])
        elif f.cls:
            eng.invoke_method(eng.start(q.split(":")[0]), sym("self", f.cls), f.node.name, params[1:])
        else:
            eng.invoke(eng.start(q.split(":")[0]), mk("func", q, None), params)
