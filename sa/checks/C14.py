"""Connections to the service are encrypted by default and go nowhere else."""

import ast

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE
from ..engine import Monitor
from ..program import AnalysisError
from ..state import HObj
from ..world import is_log, const_of, param_syms
from .C09 import opens
from .C15 import loopback, address
from . import C15

APP = "dataplicity.app"
NET_MODULES = set("http httplib ftplib smtplib poplib imaplib telnetlib nntplib xmlrpc xmlrpclib socketserver SocketServer asyncio "
                  "requests urllib3 httpx aiohttp websocket websockets paramiko twisted tornado pycurl OpenSSL asyncore asynchat "
                  "multiprocessing ftputil".split())
WEAK = set("_create_unverified_context CERT_NONE CERT_OPTIONAL check_hostname verify_mode _create_default_https_context "
           "_create_stdlib_context _https_verify_certificates wrap_socket SSLContext set_ciphers verify_ssl disable_warnings "
           "ssl_version PYTHONHTTPSVERIFY sslopt cert_reqs".split())
OPENERS = set("urlopen urlretrieve URLopener FancyURLopener WebSocket create_connection build_opener install_opener "
              "ProxyHandler set_proxy HTTPConnection HTTPSConnection".split())


class Urls(Monitor):

    def __init__(self, ctx):
        self.ctx = ctx
        self.options = {}
        self.sites = set()
        self.found = []

    def raises(self, eng, st, name, base, args, kwargs):
        return []

    def thread_start(self, eng, st, b, node):
        return [("ret", st, NONE)]

    def call(self, eng, st, name, base, args, kwargs, node):
        if name in self.transports:
            self.sites.add(eng.loc(st, node))
        if name == self.dispatcher:
            return [("ret", st, sym("dispatcher"))]
        kind = None
        last = name.split(".")[-1]
        if opens(name):
            kind = "https"
        elif last == "WebSocket" and not name.startswith("."):
            kind = "wss"
        if kind and name not in eng.funcs:
            kw = dict(kwargs)
            u = args[0] if args else kw.get("url", kw.get("fullurl"))
            if is_call(u, "urllib.request.Request", "urllib2.Request") or u.op == "call" and u.args[0].endswith("Request"):
                u = u.args[2][0] if u.args[2] else dict(u.args[3]).get("url")
            self.sites.add(eng.loc(st, node))
            self.found.append((kind, st, u, kw, eng.loc(st, node)))
        return None

    def variable(self, t):
        return t.op == "call" and (t.args[0] in ("os.environ.get", "os.getenv", "environ.get") or t.args[0] == ".get"
                                   and t.args[1] is not None and "environ" in str(t.args[1]))

    def default(self, t):
        d = t.args[2][1] if len(t.args[2]) > 1 else dict(t.args[3]).get("default")
        return None if d is NONE else d

    # where an address starts
    def head(self, eng, st, t, scheme, depth=0):
        """None if the address is configured, or starts with the scheme; otherwise what is wrong."""
        if t is None or depth > 10:
            return "unknown"
        if is_const(t):
            v = cval(t)
            v = v.decode("latin-1") if isinstance(v, bytes) else v
            return None if isinstance(v, str) and v.startswith(scheme + "://") else "%r" % (v,)
        if t.op == "fmt":
            return self.head(eng, st, t.args[0][0], scheme, depth + 1)
        if t.op == "bin" and t.args[0] == "+":
            return self.head(eng, st, t.args[1], scheme, depth + 1)
        if t.op == "phi":
            leaves = eng.phi_leaves(t)
            for x in leaves:
                if len(leaves) > 1 and self.variable(x) and self.default(x) is None:
                    continue  # the other values are for when it is not set
                r = self.head(eng, st, x, scheme, depth + 1)
                if r:
                    return r
            return None if leaves else "unknown"
        if self.variable(t):
            d = self.default(t)
            if d is None:
                return None if eng.decide(st, t) is True else "nothing, if not configured"
            return self.head(eng, st, d, scheme, depth + 1)
        if t.op == "call" and t.args[0] in (".strip", ".rstrip", ".lstrip", ".lower", "str") and not (t.args[0] != "str" and t.args[2]):
            return self.head(eng, st, t.args[1] if t.args[1] is not None else t.args[2][0], scheme, depth + 1)
        if t.op == "attr" and t.args[1] in self.options:
            d = self.options[t.args[1]]
            return None if d is None else self.head(eng, st, d, scheme, depth + 1)
        return str(t)


def options(eng):
    r = {}
    for m in eng.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument":
                kw = {k.arg: k.value for k in n.keywords}
                names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                dest = kw["dest"].value if isinstance(kw.get("dest"), ast.Constant) else None
                if dest is None:
                    long = [x for x in names if x.startswith("--")] or names
                    if not long:
                        continue
                    dest = long[0].lstrip("-").replace("-", "_")
                d = kw.get("default")
                if d is None or isinstance(d, ast.Constant) and d.value is None:
                    r[dest] = None
                elif isinstance(d, ast.Constant):
                    r[dest] = const(d.value)
                else:
                    name = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else ""
                    r[dest] = eng.global_value("dataplicity.constants", name) or sym("default of " + dest)
    return r


def run(ctx):
    ctx.rule("the agent is constructed as the command line does, its API client is used, and forwarding is run: every address given to "
             "urlopen or WebSocket starts with TLS unless configured and is the configured one; no other place in the source "
             "opens a connection to anything but loopback; nothing in the source changes how certificates are verified")
    ctx.assume("urllib and lomond verify certificates as their defaults do; configuration is the command line and the environment")
    mon = Urls(ctx)
    eng = ctx.engine(mon)
    mon.dispatcher = eng.find_class("Dispatcher", "dataplicity.m2m.dispatcher")
    mon.options = options(eng)
    mon.transports = {eng.find_class("JSONRPC", "dataplicity.jsonrpc"): "JSONRPC",
                      eng.find_class("WSClient", "dataplicity.m2m.wsclient"): "WSClient"}
    app = eng.find_class("App", APP)
    f = eng.class_attr(app, "make_client")
    if f is None or f.op != "func":
        raise AnalysisError("the application has no make_client()")
    out = eng.invoke_method(eng.start(APP), sym("self", app), "make_client", tuple(param_syms(eng, f.args[0], prefix="arg:")))
    built = set(eng.stats["functions"])
    rpc = eng.find_class("JSONRPC", "dataplicity.jsonrpc")
    states = []
    seen = set()
    for s, c in out.rets:
        if c.op != "ref":
            continue
        o = eng.obj(s, c)
        for v in o.items.values():
            if isinstance(v, T) and v.op == "ref" and eng.obj(s, v) is not None and eng.obj(s, v).cls == rpc:
                k = tuple(sorted((k, str(x)) for k, x in eng.obj(s, v).items.items()))
                if k not in seen:
                    seen.add(k)
                    states.append((s, v))
    ctx.check(bool(states), "the client has an API address", "make_client", "no API client is constructed")
    for s, v in states:
        ctx.count("API clients")
        eng.invoke_method(s, v, "call", (const("method"),), (("p", sym("p")),))
        eng.invoke_method(s, v, "notify", (const("method"),), (("p", sym("p")),))
        b = eng.invoke_method(s, v, "batch", ())
        for s2, batch in b.rets:
            if batch.op == "ref":
                eng.invoke_method(s2, batch, "call_with_id", (const("x"), const("m")), ())
                eng.invoke_method(s2, batch, "send", ())
    kinds = {}
    for kind, st, u, kw, where in mon.found:
        ctx.count("addresses")
        kinds.setdefault(kind, set()).add(str(u))
        bad = mon.head(eng, st, u, kind)
        ctx.check(bad is None, "addresses use TLS unless configured", where, "the address starts with %s" % bad, st.path(),
                  key="%s address" % kind)
        for k in ("context", "cafile", "capath", "cadefault", "proxies"):
            v = kw.get(k)
            ctx.check(v is None or v is NONE or is_call(v, "ssl.create_default_context") and not v.args[2] and not v.args[3],
                      "certificates are verified by default rules", where, "%s=%s is given" % (k, v), st.path())
    ctx.check("https" in kinds, "the API is contacted", "JSONRPC", "no request to the API was found")
    ctx.check("wss" in kinds, "the M2M server is contacted", "WSClient", "no M2M connection was found")
    # loopback connections
    m2 = C15.Connects(ctx)
    e2 = ctx.engine(m2)
    m2.prepare(e2)
    for st, client, manager in C15.world(e2):
        for action in ("open-portforward", "open-portredirect"):
            s2, route = e2.new(st, C15.hlist(4), e2.NODE, "route")
            out = C15.instruct(e2, s2, manager, action, {"route": route})
            for s, a, where in C15.threads(ctx, m2, e2, out, action):
                mon.sites.add(where)
                ctx.count("forwarded connections")
                h, p = address(e2, s, a)
                ctx.check(h is not None and loopback(h), "other connections are to loopback only", "%s (%s)" % (action, where),
                          "the address is %s" % (a if h is None else h,), s.path(), key="loopback")
    sites(ctx, eng, mon)
    kept = {"url", "rpc_url", "m2m_url"}
    for s, v in states:
        kept.update(k for k, x in eng.obj(s, v).items.items() if isinstance(k, str) and isinstance(x, T) and mon.head(eng, s, x, "https") is None)
    for q in sorted(eng.funcs):
        if q in built or "<locals>" in q:
            continue
        for n in ast.walk(eng.funcs[q].node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in kept and q.split(".")[-1] != "__init__":
                ctx.bad("an address is not changed later", q, ".%s is assigned outside the construction of the agent" % n.attr,
                        key="%s assigns %s" % (q, n.attr))
    ctx.need("addresses", 2)
    ctx.need("forwarded connections", 2)
    ctx.need("modules", 20)


def sites(ctx, eng, mon):
    """Every place in the source that can open a connection."""
    for name in sorted(eng.mods):
        m = eng.mods[name]
        if m.tree is None:
            continue
        ctx.count("modules")
        rel = m.rel if hasattr(m, "rel") else name
        funcs = {}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                mods = [a.name for a in n.names] if isinstance(n, ast.Import) else (
                    [n.module or ""] if not n.level else [])
                for x in mods:
                    ctx.check(x.split(".")[0] not in NET_MODULES and x not in ("http.client", "urllib.error.none"),
                              "no other network library is used", "%s:%d" % (name, n.lineno), "%s is imported" % x,
                              key="%s imports %s" % (name, x))
            ident = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else n.arg if isinstance(
                n, ast.keyword) else n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 40 else None
            if ident in WEAK:
                ctx.bad("certificate verification is not weakened", "%s:%d" % (name, n.lineno), "%s is used" % ident,
                        key="%s %s" % (name, ident))
            if isinstance(n, ast.Call):
                f = n.func
                cn = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
                net = cn in OPENERS or cn in mon.transports.values() or cn in ("connect", "connect_ex") and len(n.args) == 1 and not n.keywords or \
                    cn == "sendto"
                if net:
                    ctx.count("places that open connections")
                    loc = "%s:%d" % (path_of(m), n.lineno)
                    ctx.check(loc in mon.sites, "only the known places open connections", loc,
                              "%s() is called where it is not for the configured API address, M2M address or loopback" % cn)
                for k in n.keywords:
                    if k.arg == "verify" and isinstance(k.value, ast.Constant) and k.value.value is False:
                        ctx.bad("certificate verification is not weakened", "%s:%d" % (name, n.lineno), "verify=False is given")


def path_of(m):
    return "dataplicity/" + m.path.split("/dataplicity/", 1)[1] if hasattr(m, "path") else m.name
