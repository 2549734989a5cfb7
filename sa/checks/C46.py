"""C46: the agent runs with the settings it is given."""

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE
from ..instr import Channels, run_thread, instruct, LIMITER, MANAGER
from ..api import Api
from ..world import arg, const_of, is_log
from ..state import HObj
from ..program import AnalysisError
from .C34 import registry

TECHNIQUE = ("abstract interpretation of the program from its entry point under every combination of options, environment variables and "
             "files; dataflow of each setting from its source to where it is used")
NOTE = "argparse stores the value of an option under its destination, or its default."
MODULE = "dataplicity.app"
RULE = "a setting comes from the option, else from the environment, a file or a default"
FEATURES = "the M2M URL tells the features"
LIMITS = "each pool has the limit of its own variable"
OPTIONS = {"--serial": "serial", "--auth": "token", "--server-url": "api", "--m2m-url": "m2m", "--remote-dir": "root"}
API, M2M = "DATAPLICITY_API_URL", "DATAPLICITY_M2M_URL"
POOLS = {"services": "DATAPLICITY_LIMIT_SERVICES", "terminals": "DATAPLICITY_LIMIT_TERMINALS"}
FILES = {"serial": "/opt/dataplicity/tuxtunnel/serial", "token": "/opt/dataplicity/tuxtunnel/auth"}
KNOWN = {"scan", "downloads"}
OPEN = ("open", "io.open", "codecs.open")
ENVIRON = ("os.environ",)


def given(o):
    return sym("given " + o, "str")


def variable(n):
    return sym("variable " + n, "str")


def file_of(t):
    return t.args[0].split(" ", 1)[1] if isinstance(t, T) and t.op == "sym" and str(t.args[0]).startswith(("file ", "bytes ")) else None


class Settings(Channels):
    """env: {variable: how}; query: whether the M2M URL has a query. opts: the options given. mon: uses = ((what, value), ...)."""

    write_fails = False
    start_fails = False
    loads = True
    whole = (sym("args"),)
    opts = frozenset()
    ch = stubs = {}
    dispatcher = None

    def __init__(self, ctx, env):
        self.ctx, self.env, self.query = ctx, env, False
        self.names, self.runs = {}, {}
        self.options = {}
        self.m = {}
        self.forever = self.increment = None

    def raises(self, eng, st, name, base, args, kwargs):
        return []

    def subscript_raises(self, eng, st, b, k):
        return False

    def exc(self, eng, st, node, name):
        return ("raise", st, (name, True, frozenset(), mk("exc", name, True, eng.site(st, node), None)))

    def use(self, st, what, v):
        u = st.mon.get("uses", ())
        return st if (what, v) in u else st.setmon(uses=u + ((what, v),))

    # options
    def getattr(self, eng, st, b, name, node):
        if b is not sym("args"):
            return None
        if name == "subcommand":
            return [(st, const("run"))]
        if name not in self.options:
            return None
        opt, default, action = self.options[name]
        if opt not in OPTIONS:
            return [(st, default)]
        return [(st, given(opt) if opt in self.opts else default)]

    def decide(self, eng, st, t):
        if t.op == "sym" and str(t.args[0]).startswith(("given ", "variable ", "text of ")):
            return True
        if t.op == "attr" and t.args[1] == "query" and t.args[0].op == "sym" and str(t.args[0].args[0]).startswith("url parts "):
            return t.args[0].args[0] == "url parts True"
        if t.op == "cmp" and t.args[0] in ("eq", "is") and any(x is NONE or is_const(x) and cval(x) == "" for x in t.args[1:]) and any(
                x.op == "sym" and str(x.args[0]).startswith(("given ", "variable ", "text of ")) for x in t.args[1:]):
            return False
        if t.op == "cmp" and t.args[0] == "in":
            a, b = t.args[1:]
            if is_const(a) and cval(a) == "?" and b.op == "sym":
                return self.query
            if b.op == "ext" and b.args[0] in ENVIRON and is_const(a) and cval(a) in self.env:
                return self.env[cval(a)] != "unset"
        return None

    def env_value(self, key):
        return variable(key) if self.env[key] != "unset" else None

    def environ(self, eng, st, args, kwargs):
        if args and is_const(args[0]) and cval(args[0]) in self.env:
            v = self.env_value(cval(args[0]))
            return v if v is not None else args[1] if len(args) > 1 else dict(kwargs).get("default", NONE)
        return None

    def getitem(self, eng, st, b, k, node, out):
        if b.op == "ext" and b.args[0] in ENVIRON and is_const(k) and cval(k) in self.env:
            v = self.env_value(cval(k))
            if v is None:
                eng.raise_(st, out, "KeyError", True, node)
                return []
            return [(st, v)]
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        if not isinstance(name, str):
            return None
        kw = dict(kwargs)
        if self.dispatcher is not None and name == self.dispatcher:
            return [("ret", st, sym("dispatcher"))]
        if name == "int" and args and args[0].op == "sym" and str(args[0].args[0]).startswith("variable "):
            n = str(args[0].args[0])[9:]
            if self.env[n] == "odd":
                return [self.exc(eng, st, node, "ValueError")]
            return [("ret", st, sym("number " + n, "int"))]
        if name in (".isdigit", ".isdecimal", ".isnumeric") and base is not None and base.op == "sym" and str(
                base.args[0]).startswith("variable "):
            return [("ret", st, const(self.env[str(base.args[0])[9:]] == "set"))]
        if name == ".add_argument" and any(is_const(a) and str(cval(a)).startswith("-") for a in args):
            longs = [cval(a) for a in args if is_const(a) and str(cval(a)).startswith("--")]
            act = const_of(kw.get("action", NONE))
            d = const_of(kw.get("dest", NONE)) or (longs or [cval(args[0])])[0].lstrip("-").replace("-", "_")
            default = kw.get("default", FALSE if act == "store_true" else TRUE if act == "store_false" else NONE)
            if longs:
                if d in self.options and self.options[d][0] != longs[0]:
                    raise AnalysisError("two options are stored as %s" % d)
                if act not in (None, "store") and longs[0] in OPTIONS:
                    raise AnalysisError("the option %s is not stored" % longs[0])
                self.options[d] = (longs[0], default, act)
            return [("ret", st, sym("argument"))]
        if name in ("vars", "getattr") and args and args[0] is sym("args"):
            if name == "getattr":
                r = self.getattr(eng, st, args[0], const_of(args[1]), node)
                return [("ret", z, v) for z, v in r] if r is not None else None
            items = {const("subcommand"): const("run")}
            for d in sorted(self.options):
                (st, v), = self.getattr(eng, st, args[0], d, node)
                items[const(d)] = v
            s, v = eng.new(st, HObj("dict", items=items, rest=True), node)
            return [("ret", s, v)]
        if name in (".parse_args", ".parse_known_args"):
            return [("ret", st, sym("args") if name == ".parse_args" else mk("tuple", (sym("args"), sym("more"))))]
        if name in OPEN and args:
            if st.mon.get("client") is not None:
                return [self.exc(eng, st, node, "FileNotFoundError")]
            mode = const_of(args[1] if len(args) > 1 else kw.get("mode", NONE)) or "r"
            return [("ret", st, sym("%s %s" % ("bytes" if "b" in mode else "file", const_of(args[0]))))]
        if name in ("os.path.expanduser", "os.path.abspath", "os.path.realpath", "os.path.normpath", "str") and len(args) == 1:
            return [("ret", st, args[0])]
        if base is not None and file_of(base) is not None:
            if name in (".read", ".readline"):
                return [("ret", st, sym("raw " + file_of(base), "bytes" if str(base.args[0]).startswith("bytes ") else "str"))]
            if name == ".__enter__":
                return [("ret", st, base)]
        if base is not None and base.op == "sym" and str(base.args[0]).startswith(("raw ", "text of ")):
            if name == ".strip" and not args:
                return [("ret", st, sym("text of " + str(base.args[0]).replace("text of ", "raw ", 1)[4:], "str"))]
            if name == ".decode":
                return [("ret", st, sym(base.args[0], "str"))]
        if base is not None and base in (given("--m2m-url"), variable(M2M)) and name.startswith("."):
            if name in (".find", ".rfind", ".count") and args and is_const(args[0]) and cval(args[0]) == "?":
                return [("ret", st, const(1 if self.query else 0 if name == ".count" else -1))]
            if name in (".index", ".partition", ".rpartition", ".split", ".rsplit"):
                raise AnalysisError("the M2M URL is taken apart by %s" % name)
        if name.split(".")[-1] in ("urlparse", "urlsplit") and args:
            return [("ret", st, sym("url parts %s" % (self.query and args[0] in (given("--m2m-url"), variable(M2M)))))]
        if name == ".read_text":
            raise AnalysisError("a file is read by %s" % name)
        if name in ("lomond.WebSocket", "lomond.websocket.WebSocket"):
            return [("ret", self.use(st, "m2m", arg0(args, kw, "url")), sym("websocket"))]
        if name.split(".")[-1] in ("urlopen", "Request") and not name.startswith("dataplicity") and args:
            if not (args[0].op == "sym" and args[0].args[0] == "request"):
                st = self.use(st, "api", args[0])
            if name.endswith("Request"):
                return [("ret", st, sym("request"))]
            return [self.exc(eng, st, node, "OSError")]
        n = self.m.get(name)
        if n is not None:
            if const_of(arg(eng, name, args, kwargs, "method")) == "device.check_auth":
                p = {k: v for k, v in kwargs}
                st = self.use(st, "serial", p.get("serial", NONE))
                st = self.use(st, "token", p.get("auth_token", NONE))
                return [("cont", st)]
            return None
        if name == self.forever:
            return [("ret", st.setmon(client=args[0]), NONE)]
        if name == self.increment and args:
            o = eng.obj(st, args[0])
            if o is None:
                raise AnalysisError("a slot of an unknown pool is taken")
            return [("ret", st.setmon(taken=st.mon.get("taken", ()) + (args[0],)), NONE)]
        if name == "sys.exit" or name == "exit":
            return [self.exc(eng, st, node, "SystemExit")]
        return Channels.call(self, eng, st, name, base, args, kwargs, node)


def arg0(args, kw, name):
    return args[0] if args else kw.get(name, NONE)


def run(ctx):
    ctx.rule("the program is followed from its entry point with no option, each one and all of them given, each environment variable set or not (the "
             "limits also to no number) and the M2M URL with a query or not; what reaches the web socket, the API's URL, the "
             "authentication of a call, the remote directory and the pools is compared with the source it must come from")
    ctx.assume("options and variables that are set are not empty; files hold any text")
    every = sorted(OPTIONS)
    none = {v: "unset" for v in list(POOLS.values()) + [API, M2M]}
    for env, sets in (({}, [()] + [(o,) for o in every] + [every]), ({API: "set"}, [(), ("--server-url",), ("--m2m-url",)]),
                      ({M2M: "set"}, [(), ("--server-url",), ("--m2m-url",)]), ({API: "set", M2M: "set"}, [(), every])):
        mon, eng = build(ctx, dict(none, **env))
        for opts in sets:
            for q in (False, True) if "--m2m-url" in opts or M2M in env else (False,):
                mon.opts, mon.query = frozenset(opts), q
                agents(ctx, mon, eng, True)
    for n in sorted(POOLS.values()):
        for how in ("set", "odd"):
            try:
                mon, eng = build(ctx, dict(none, **{n: how}))
            except AnalysisError as error:
                if "does not load" not in str(error):
                    raise
                ctx.bad(LIMITS, "dataplicity.constants", "with %s %s, %s" % (n, "that is no number" if how == "odd" else "set", error),
                        key="load %s %s" % (n, how))
                continue
            agents(ctx, mon, eng, False)
    ctx.need("agents", 20)
    ctx.need("settings", 80)
    ctx.need("limits", 16)


def build(ctx, env):
    mon = Settings(ctx, env)
    eng = ctx.engine(mon)
    api = Api(ctx)
    api.prepare(eng)
    mon.prepare(eng)
    mon.stubs = {}
    mon.m = {k: n for k, n in list(api.m.items()) + list(api.direct.items()) if n in ("call", "call_with_id", "notify")}
    mon.forever = eng.class_attr(eng.find_class("Client", "dataplicity.client"), "run_forever").args[0]
    inc = eng.class_attr(eng.find_class("Limiter", LIMITER), "increment")
    mon.increment = inc.args[0] if inc is not None else None
    return mon, eng


def agents(ctx, mon, eng, full):
    env, opts = mon.env, mon.opts
    st = registry(eng, eng.start(MODULE), mon)
    out = eng.invoke(st, mk("func", eng.find_func("main", MODULE), None), ())
    missing = set(OPTIONS) - {o for o, _, _ in mon.options.values()}
    ctx.check(not missing, RULE, MODULE, "there is no option %s" % ", ".join(sorted(missing)), key="options")
    where = "the agent with %s and %s" % (", ".join("%s %s" % x for x in sorted(env.items()) if x[1] != "unset") or "no variables",
                                          ", ".join(sorted(opts)) or "no options")
    got = {}
    for s in [s for s, _ in out.rets] + [s for s, _ in out.raises]:
        if s.mon.get("client") is not None:
            s = s.copy()
            s.facts = {}
            s.trace = None
            got.setdefault(s.key(), s)
    if not got:
        raise AnalysisError("%s never runs" % where)
    for s in got.values():
        ctx.count("agents")
        (settings if full else limits)(ctx, eng, s, s.mon["client"], where, mon)


def text_of(eng, st, t):
    """The pieces of a text that is put together: constant text, and other terms."""
    if t.op == "fmt":
        return [p for x in t.args for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, T) for p in text_of(eng, st, y)]
    if is_call(t, ".join") and is_const(t.args[1]) and t.args[2]:
        items = eng.iter_items(st, t.args[2][0])
        if items is not None:
            r = []
            for i, x in enumerate(sorted(items, key=str)):
                r += ([t.args[1]] if i else []) + text_of(eng, st, x)
            return r
    return [t]


def joined_text(eng, st, t):
    """(the first piece if it is no constant, the constant text behind it or None)."""
    ps = text_of(eng, st, t)
    head = None
    if ps and not is_const(ps[0]):
        head, ps = ps[0], ps[1:]
    if not all(is_const(p) and isinstance(cval(p), str) for p in ps):
        return head, None
    return head, "".join(cval(p) for p in ps)


def settings(ctx, eng, s, c, where, mon):
    env, query, opts = mon.env, mon.query, mon.opts
    o = eng.obj(s, c)
    insts = [v for v in o.items.values() if isinstance(v, T) and v.op == "ref" and eng.obj(s, v) is not None]
    rpc = [v for v in insts if eng.obj(s, v).cls == eng.find_class("JSONRPC", "dataplicity.jsonrpc")]
    if len(rpc) != 1:
        raise AnalysisError("the client has no JSONRPC")
    # what is used in running: for calls of the API, and by the threads
    uses = set(s.mon.get("uses", ()))
    for out in (eng.invoke_method(s, rpc[0], "call", (const("a method"),)), eng.invoke_method(s, c, "sync", ())):
        for z in [z for z, _ in out.rets] + [z for z, _ in out.raises]:
            uses |= set(z.mon.get("uses", ()))
    if not any(w == "m2m" for w, _ in uses):
        for t in s.mon.get("started", ()):
            out = run_thread(eng, s, t)
            for z in [z for z, _ in out.rets] + [z for z, _ in out.raises]:
                uses |= set(z.mon.get("uses", ()))
    for opt, what in sorted(OPTIONS.items()):
        if what == "root":
            continue
        vs = sorted((v for w, v in uses if w == what), key=str)
        if not vs:
            raise AnalysisError("the use of %s is not found" % opt)
        ctx.count("settings")
        yes = opt in opts
        var = {"api": API, "m2m": M2M}.get(what)
        for v in vs:
            if what == "m2m":
                m2m(ctx, eng, s, v, where, given(opt) if yes else variable(M2M) if env[M2M] != "unset" else None, query)
                continue
            if yes:
                good, want = v is given(opt), "the value of %s" % opt
            elif var is not None and env[var] != "unset":
                good, want = v is variable(var), "the variable %s" % var
            elif var is not None:
                good, want = is_const(v) and str(cval(v)).startswith("http"), "the default URL"
            else:
                good, want = v is sym("text of " + FILES[what], "str"), "the stripped text of " + FILES[what]
            ctx.check(good, RULE, where, "%s is used for %s, not %s" % (v, opt.strip("-"), want), s.path(), key=what)
    for name, mod in (("RemoteDirectory", "dataplicity.remote_directory"), ("DirectoryScanner", "dataplicity.directory_scanner")):
        cid = eng.find_class(name, mod)
        found = [h for h in s.heap.values() if h.kind == "inst" and h.cls == cid]
        if not found:
            raise AnalysisError("there is no %s" % name)
        for h in found:
            ctx.count("settings")
            vs = [v for v in h.items.values() if isinstance(v, T)]
            if "--remote-dir" in opts:
                good = any(given("--remote-dir") in subterms(v) for v in vs)
            else:
                good = any(is_const(v) and str(cval(v)).startswith(("/", "~")) for v in vs)
            ctx.check(good, RULE, where, "the remote directory of %s is not %s" % (
                name, "the one given" if "--remote-dir" in opts else "the default"), s.path(), key="root " + name)


def m2m(ctx, eng, s, v, where, source, query):
    head, text = joined_text(eng, s, v)
    ctx.check(head is source and (source is not None or text is None or text.startswith("ws")), RULE, where,
              "%s is connected to, not %s" % (v, source or "the default URL"), s.path(), key="m2m")
    if source is not None and query:
        ctx.check(text == "", FEATURES, where, "%s is connected to though the URL has a query of its own" % v, s.path(), key="own query")
        return
    if text is None:
        raise AnalysisError("the M2M URL is %s" % v)
    before, q, names = text.partition("?")
    ctx.check((source is None or not before) and names.startswith("features=") and set(names[9:].split(",")) >= KNOWN, FEATURES, where,
              "it is %s" % v, s.path(), key="features")


def limits(ctx, eng, s, c, where, mon):
    env = mon.env
    cid = eng.find_class("M2MManager", MANAGER)
    managers = [v for v in eng.obj(s, c).items.values() if isinstance(v, T) and v.op == "ref" and eng.obj(s, v) is not None
                and eng.obj(s, v).cls == cid]
    if len(managers) != 1:
        raise AnalysisError("the client has no M2M manager")
    s = s.setmon(started=(), failed=(), taken=())
    for action, pool in (("open-terminal", "terminals"), ("read-file", "services"), ("run-command", "services"),
                         ("open-portforward", "services")):
        out = instruct(eng, s, managers[0], action)
        taken = {t for z in [z for z, _ in out.rets] + [z for z, _ in out.raises] for t in z.mon.get("taken", ())}
        if not taken:
            raise AnalysisError("no slot is taken for %s" % action)
        for t in taken:
            var = POOLS[pool]
            ctx.count("limits")
            vs = list(eng.obj(s, t).items.values()) if eng.obj(s, t) is not None else []
            if env[var] == "set":
                good, want = sym("number " + var, "int") in vs, "the number in " + var
            else:
                nums = [cval(v) for v in vs if is_const(v) and type(cval(v)) is int]
                good, want = max(nums or [0]) > 0 and not any(v.op == "sym" and str(v.args[0]).startswith(("number", "variable"))
                                                              for v in vs), "a default"
            ctx.check(good, LIMITS, where, "the limit for %s is not %s" % (action, want), s.path(), key=pool)
