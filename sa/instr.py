"""Instructions from the server: the agent as constructed, given one instruction, and the threads that starts."""

from .terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, ext
from .engine import Monitor
from .state import HObj
from .program import AnalysisError
from .world import is_log, const_of
from . import api

MANAGER = "dataplicity.m2mmanager"
FIELDS = {
    "sync": (),
    "open-terminal": ("port", "name", "size"),
    "open-echo": ("port",),
    "open-portforward": ("service", "route"),
    "open-portredirect": ("device_port", "m2m_port"),
    "reboot-device": (),
    "read-file": ("port", "path"),
    "run-command": ("port", "command"),
    "scan-directory": (),
}


class Threads(Monitor):
    """mon: started = (thread, ...): the threads started on this path. A start may fail."""

    start_fails = True

    def thread_start(self, eng, st, b, node):
        res = [("ret", st.setmon(started=st.mon.get("started", ()) + (b,)), NONE)]
        if self.start_fails:
            res.append(("raise", st.setmon(failed=st.mon.get("failed", ()) + (b,)), (
                "Exception", False, frozenset(), mk("exc", "Exception", False, eng.site(st, node), None))))
        return res

    def thread_call(self, eng, st, name, base, args, kwargs, node):
        if name == ".start" and base is not None and is_call(base, "threading.Timer"):
            raise AnalysisError("a timer is started")
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        return self.thread_call(eng, st, name, base, args, kwargs, node)

    def raises(self, eng, st, name, base, args, kwargs):
        if is_log(name, base):
            return []
        return None


def run_thread(eng, st, t, step=None):
    """Run a started thread (an entry of mon.started) to its end."""
    body = eng.thread_body(st, t)
    if body is None:
        raise AnalysisError("a thread with an unknown target is started")
    f, args, kw = body
    if f.op == "bound" and f.args[1] is t and not args and not kw:
        return eng.invoke_method(st, t, eng.funcs[f.args[0].args[0]].node.name, (), (), step=step)
    return eng.invoke(st, f, tuple(args), kw)


def world(eng):
    """[(state, client, manager)]: the agent, constructed."""
    res = []
    cid = eng.find_class("M2MManager", MANAGER)
    for st, c in api.client(eng):
        o = eng.obj(st, c)
        m = [v for v in o.items.values() if isinstance(v, T) and v.op == "ref" and eng.obj(st, v) is not None
             and eng.obj(st, v).cls == cid]
        if len(m) != 1:
            raise AnalysisError("the client has no M2M manager")
        res.append((st.setmon(started=(), failed=()), c, m[0]))
    if not res:
        raise AnalysisError("the client can not be constructed")
    return joined(eng, res)


def joined(eng, res):
    """States that differ only in plain values of attributes, as one."""
    groups = []
    for st, c, m in res:
        for g in groups:
            if g[0][1] is c and g[0][2] is m and differences(g[0][0], st) is not None:
                g.append((st, c, m))
                break
        else:
            groups.append([(st, c, m)])
    out = []
    for g in groups:
        st, c, m = g[0]
        vals = {}
        for x, _, _ in g[1:]:
            for a, k in differences(st, x):
                vals.setdefault((a, k), [st.heap[a].items[k]]).append(x.heap[a].items[k])
        if vals:
            st = st.copy()
            st.facts = {}
            st.trace = None
        for (a, k), vs in vals.items():
            st = st.setobj(a, st.heap[a].set_item(k, eng.join_vals(vs, str(a), str(k))))
        out.append((st, c, m))
    return out


def differences(s, x):
    """[(address, attribute)] in which two states differ by plain values (None if otherwise)."""
    if set(s.heap) != set(x.heap) or s.mon != x.mon:
        return None
    r = []
    for a, o in s.heap.items():
        p = x.heap[a]
        if o.key() == p.key():
            continue
        if o.kind != "inst" or p.kind != "inst" or o.cls != p.cls or set(o.items) != set(p.items):
            return None
        for k in o.items:
            if o.items[k] is not p.items[k]:
                if any(y.op == "ref" for v in (o.items[k], p.items[k]) for y in subterms(v)):
                    return None
                r.append((a, k))
    return r


# Fields of the wrong type: what the server sends may be anything the codec can carry.
ODD = {"read-file": {"path": sym("field:path", "int")}, "run-command": {"command": sym("field:command", "int")},
       "open-terminal": {"name": sym("field:name", "int")}, "open-portforward": {"service": sym("field:service", "int")}}


UNTYPED = ("port", "m2m_port", "device_port", "size", "route")


def field(name):
    """The value of a field: numbers and lists (or anything), otherwise bytes."""
    return sym("field:" + name) if name in UNTYPED else sym("field:" + name, "bytes")


def is_field(t, *names):
    return any(x.op == "sym" and str(x.args[0]).startswith("field:") and (not names or x.args[0][6:] in names)
               for x in subterms(t))


def keys_read(eng):
    """Every constant that is used as a key anywhere in the modules an instruction passes through."""
    import ast
    r = set()
    for m in eng.mods.values():
        if not m.name.startswith("dataplicity.") or m.name.split(".")[-1] in ("packets", "jsonrpc", "app"):
            continue
        for n in ast.walk(m.tree):
            k = None
            if isinstance(n, ast.Subscript):
                k = n.slice
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop") and n.args:
                k = n.args[0]
            if isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier():
                r.add(k.value)
    return r - {"action"} - set(f for fs in FIELDS.values() for f in fs)


def instruct(eng, st, manager, action, values=None, fields=None):
    """Out of on_instruction for the instruction with this action and these (or symbolic) fields."""
    items = {const(b"action"): const(action.encode())}
    if fields is None:
        fields = sorted(set(FIELDS.get(action, ())) | keys_read(eng))
    for f in fields:
        v = (values or {}).get(f)
        items[const(f.encode())] = v if v is not None else field(f)
    if values and "action" in values:
        items[const(b"action")] = values["action"]
    st, d = eng.new(st, HObj("dict", items=items), eng.NODE, "instruction")
    return eng.invoke_method(st, manager, "on_instruction", (sym("sender"), d))


WS = "dataplicity.m2m.wsclient"


class Channels(Threads):
    """Adds channels: what is done with a channel is kept in mon.events as (what, channel, args).

    Whether a channel has closed is unknown at every look.  Writing may raise (no encoding of the data), closing does not."""

    write_fails = True

    def prepare(self, eng):
        self.eng = eng
        self.channel = eng.find_class("Channel", WS)
        self.ch = {}
        for n in ("write", "close", "send_control", "set_callbacks", "is_closed"):
            v = eng.class_attr(self.channel, n)
            if v is None:
                raise AnalysisError("a channel has no %s" % n)
            f = v
            while f.op in ("prop", "cm", "sm"):
                f = f.args[0]
            self.ch[f.args[0]] = n
        self.dispatcher = eng.find_class("Dispatcher", "dataplicity.m2m.dispatcher")
        self.stubs = {}
        for cls, mod, name in (("Client", "dataplicity.client", "sync"),
                               ("DirectoryScanner", "dataplicity.directory_scanner", "perform_scan")):
            v = eng.class_attr(eng.find_class(cls, mod), name)
            if v is None or v.op != "func":
                raise AnalysisError("%s has no %s()" % (cls, name))
            self.stubs[v.args[0]] = name

    def constructing(self, eng, st, name, base, args, kwargs, node):
        if name == self.dispatcher:
            return [("ret", st, sym("dispatcher"))]
        return None

    def writing_failed(self, st):
        return st

    def event(self, eng, st, what, ch, args, node):
        return st.setmon(events=st.mon.get("events", ()) + ((what, ch) + tuple(args),))

    def call(self, eng, st, name, base, args, kwargs, node):
        n = self.ch.get(name)
        if name in self.stubs:
            st = self.event(eng, st, self.stubs[name], args[0], (), node)
            return [("ret", st, NONE), ("raise", st, ("Exception", False, frozenset(), mk(
                "exc", "Exception", False, eng.site(st, node), None)))]
        if n == "is_closed":
            t = call("channel closed", args[0] if args else base, (), (), eng.uid(st, node))
            return [("ret", eng.purge(st, t), t)]
        if n is not None:
            from .world import arg
            f = eng.funcs[name].node.args
            names = [a.arg for a in f.args][1:]
            vals = [arg(eng, name, args, kwargs, a) for a in names]
            st2 = self.event(eng, st, n, args[0], vals, node)
            if st2 is None:
                return []
            res = [("ret", st2, NONE)]
            if n == "write" and self.write_fails:
                res.append(("raise", self.writing_failed(st2), ("Exception", False, frozenset(), mk("exc", "Exception", False, eng.site(st, node), None))))
            return res
        return self.thread_call(eng, st, name, base, args, kwargs, node)


LIMITER = "dataplicity.limiter"


def pools(eng, st, manager):
    """{"services": ref, "terminals": ref}: the manager's limiters, by the limit they are given."""
    cid = eng.find_class("Limiter", LIMITER)
    res = {}
    limits = {}
    for kind in ("services", "terminals"):
        limits[kind] = eng.global_value("dataplicity.constants", "LIMIT_" + kind.upper())
    for k, v in eng.obj(st, manager).items.items():
        if isinstance(v, T) and v.op == "ref" and eng.obj(st, v) is not None and eng.obj(st, v).cls == cid:
            for kind in limits:
                if limits[kind] is not None and any(x is limits[kind] for x in eng.obj(st, v).items.values()):
                    if kind in res and res[kind] is not v:
                        raise AnalysisError("two limiters share the limit of " + kind)
                    res[kind] = v
    return res


def innermost(t):
    """t without decoding, stripping and conversion."""
    while t.op == "call" and (t.args[0] == ".decode" or t.args[0] in ("int", "str")):
        t = t.args[1] if t.args[0].startswith(".") else t.args[2][0]
    return t


def channel_number(eng, st, t):
    """The number of the channel t refers to (None if it is no channel)."""
    cid = eng.find_class("Channel", WS)
    if t is None or t.op != "ref":
        return None
    o = eng.obj(st, t)
    if o is None or o.cls != cid:
        return None
    v = o.items.get("number")
    return innermost(v) if v is not None else None
