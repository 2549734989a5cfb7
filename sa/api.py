"""The agent's use of the API: batches, their calls, and what was acknowledged."""

from .terms import mk, sym, call, const, is_const, cval, is_call, subterms, NONE, ext
from .engine import Monitor
from .state import HObj
from .program import AnalysisError
from .world import make, havoc_obj, arg, const_of

MODULE = "dataplicity.jsonrpc"
CLIENT = "dataplicity.client"


class Api(Monitor):
    """mon: calls = ((id, method, params), ...) of the batch being built; sent = tuple of such tuples; acked = ids."""

    def __init__(self, ctx):
        self.ctx = ctx

    def prepare(self, eng):
        self.batch = eng.find_class("Batch", MODULE)
        self.rpc = eng.find_class("JSONRPC", MODULE)
        self.m = {}
        for n in ("send", "get_result", "call", "call_with_id", "notify"):
            v = eng.class_attr(self.batch, n)
            if v is not None and v.op == "func":
                self.m[v.args[0]] = n
        if "send" not in self.m.values() or "get_result" not in self.m.values():
            raise AnalysisError("the batch of API calls has no send() or get_result()")
        self.direct = {}
        for n in ("call", "notify", "_send"):
            v = eng.class_attr(self.rpc, n)
            if v is not None and v.op == "func":
                self.direct[v.args[0]] = n

    def exc(self, eng, st, node, name="Exception"):
        return ("raise", st, (name, False, frozenset(), mk("exc", name, False, eng.site(st, node), None)))

    def method(self, eng, name, args, kwargs):
        a = arg(eng, name, args, kwargs, "method")
        return const_of(a) if a is not None else None

    def call(self, eng, st, name, base, args, kwargs, node):
        if name == self.batch:
            return [("cont", st.setmon(calls=None))]
        n = self.m.get(name)
        if n in ("call", "call_with_id", "notify"):
            cid = arg(eng, name, args, kwargs, "call_id")
            meth = self.method(eng, name, args, kwargs)
            params = tuple(sorted((k, v) for k, v in kwargs if k not in ("call_id", "method")))
            c = (const_of(cid) if cid is not None else None, meth, params)
            st = st.setmon(calls=st.mon.get("calls", ()) + (c,))
            return [("ret", st, NONE)]
        if n == "send":
            calls = st.mon.get("calls", ())
            st = self.sending(eng, st, calls, node)
            st = st.setmon(sent=st.mon.get("sent", ()) + (calls,))
            return [("ret", st.setmon(answered=calls), NONE), self.exc(eng, st, node)]
        if n == "get_result":
            cid = const_of(arg(eng, name, args, kwargs, "call_id"))
            default = arg(eng, name, args, kwargs, "default")
            res = [self.exc(eng, st, node)]
            if cid is not None and any(c[0] == cid for c in st.mon.get("answered", ())):
                r = call("result", None, (const(cid),), (), eng.uid(st, node))
                res.append(("ret", st.setmon(acked=tuple(sorted(set(st.mon.get("acked", ())) | {cid}))), r))
                if default is not None:
                    res.append(("ret", st, default))
            return res
        if name in self.direct:
            return self.outside(eng, st, self.direct[name], node)
        return None

    def sending(self, eng, st, calls, node):
        return st

    def outside(self, eng, st, name, node):
        return None


def client(eng, havoc=False):
    """Constructed clients: [(state, ref)]."""
    st = eng.start(CLIENT)
    cid = eng.find_class("Client", CLIENT)
    kw = [("rpc_url", const("https://api.example/")), ("m2m_url", const("wss://m2m.example/?x=y")),
          ("remote_directory_path", const("/remote"))]
    res = []
    for s, r in make(eng, st, cid, (), kw, havoc=False):
        if havoc:
            items = eng.obj(s, r).items
            s = havoc_obj(eng, s, r)
            keep = {k: v for k, v in items.items() if any(x.op in ("sym", "ext") or x.op == "call" for x in subterms(v))
                    or v.op == "ref" and eng.obj(s, v) is not None and eng.obj(s, v).kind == "inst"}
            o = eng.obj(s, r)
            new = dict(o.items)
            new.update(keep)
            s = s.setobj(r.args[0], o.with_(items=new))
        res.append((s, r))
    return res
