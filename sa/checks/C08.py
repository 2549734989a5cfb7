"""Every API batch authenticates first, with the device's own credentials."""

import ast

from ..terms import mk, sym, call, const, is_const, cval, is_call, subterms, NONE
from ..api import Api, client, CLIENT, MODULE
from ..engine import Monitor
from ..program import AnalysisError
from ..world import is_log, param_syms

AUTH = "device.check_auth"


class Batches(Api):

    def raises(self, eng, st, name, base, args, kwargs):
        if is_log(name, base) or name.startswith("time.") or name.startswith("random."):
            return []
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        if name in eng.funcs and st.mon.get("entry") and name.split(":")[0] not in (CLIENT, MODULE):
            # functions of other modules send nothing (checked apart)
            return [("ret", st, call(name, None, tuple(args), (), eng.uid(st, node))), self.exc(eng, st, node)]
        return Api.call(self, eng, st, name, base, args, kwargs, node)

    def known(self, eng, v, which):
        """v is the serial (or token) of the device."""
        others = {"serial": "auth_token", "auth_token": "serial"}
        loc = {"serial": "SERIAL_LOCATION", "auth_token": "AUTH_LOCATION"}

        def mentions(w):
            path = eng.global_value("dataplicity.constants", loc[w])
            return any(x is sym("Client." + w) or x is path for x in subterms(v))
        return mentions(which) and not mentions(others[which])

    def sending(self, eng, st, calls, node):
        where = eng.loc(st, node)
        self.ctx.count("batches sent")
        entry = st.mon.get("entry", "?")
        if not calls:
            self.ctx.bad("a batch authenticates first", entry, "an empty batch is sent", st.path())
            return st
        cid, meth, params = calls[0]
        p = dict(params)
        for i, (c, m, ps) in enumerate(calls):
            if m is None:
                self.ctx.bad("a batch authenticates first", entry, "a call of unknown method is sent", st.path())
            self.ctx.check((m == AUTH) == (i == 0), "a batch authenticates first", entry,
                           "a batch is sent in which %s is call number %d" % (m, i + 1), st.path())
        if meth == AUTH:
            for k in ("serial", "auth_token"):
                v = p.get(k)
                self.ctx.check(v is not None and self.known(eng, v, k), "a batch carries the device's own credentials",
                               entry, "the authentication call has %s=%s" % (k, v), st.path())
        return st

    def outside(self, eng, st, name, node):
        self.ctx.bad("nothing is sent outside a batch", eng.loc(st, node), "JSONRPC.%s() sends a request of its own" % name,
                     st.path())
        return None


def run(ctx):
    ctx.rule("every method of Client that makes a batch is run from a client in any state; at each Batch.send the calls put in the batch start with "
             "one device.check_auth whose serial and auth_token derive from the client's serial and token alone; nothing outside "
             "the batch sends a request; no other function makes or uses an API connection")
    ctx.assume("the serial and token are those given to the client or read from their files")
    mon = Batches(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    cid = eng.find_class("Client", CLIENT)
    methods = users(ctx, eng, cid, mon)
    todo = [q for q in methods if mentions(eng, q, ("remote",))]
    done = set()
    clients = client(eng, havoc=True)
    clients = clients[:1] + clients[-1:] if len(clients) > 1 else clients
    while todo:
        q = todo.pop(0)
        done.add(q)
        f = eng.funcs[q]
        name = f.node.name
        if name == "_init" or name == "__init__":
            continue
        hands_on = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))
        for s0, me in clients:
            out = eng.invoke_method(s0.setmon(entry=q, calls=None), me, name, args_of(eng, q))
            ctx.count("methods run")
            for s, v in out.rets:
                o = eng.obj(s, v) if v.op == "ref" else None
                hands_on = hands_on or o is not None and o.kind == "inst" and o.cls == mon.batch
        if hands_on:
            todo += [c for c in methods if c not in done and c not in todo and mentions(eng, c, (name,))]
    ctx.need("batches sent", 4)
    ctx.need("methods run", 4)


def mentions(eng, q, names):
    """A function uses an attribute of one of these names (other than storing it)."""
    return any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in names
               for n in ast.walk(eng.funcs[q].node))


def args_of(eng, q):
    f = eng.funcs[q]
    decs = [d.id for d in f.node.decorator_list if isinstance(d, ast.Name)]
    a = f.node.args
    n = [x.arg for x in a.args]
    if "staticmethod" not in decs:
        n = n[1:]
    return [sym("arg:" + x) for x in n]


def users(ctx, eng, cid, mon):
    """Functions that may use the API connection; others must not touch it."""
    rpcmod = eng.classes[mon.rpc].qual.split(":")[0] if hasattr(eng.classes[mon.rpc], "qual") else mon.rpc.split(":")[0]
    r = []
    for q in sorted(eng.funcs):
        f = eng.funcs[q]
        mod = q.split(":")[0]
        if mod == rpcmod:
            continue
        if f.cls == cid:
            r.append(q)
            continue
        ctx.count("other functions")
        for n in ast.walk(f.node):
            hit = None
            if isinstance(n, ast.Attribute) and n.attr == "remote":
                hit = "uses the API connection of the client"
            elif isinstance(n, ast.Call):
                g = n.func
                nm = g.attr if isinstance(g, ast.Attribute) else g.id if isinstance(g, ast.Name) else ""
                if nm in ("JSONRPC", "Batch"):
                    hit = "makes an API connection"
                elif nm in ("urlopen", "urlretrieve", "HTTPConnection", "HTTPSConnection"):
                    hit = "makes a request"
            if hit:
                ctx.bad("nothing is sent outside a batch", q, "%s %s" % (q, hit))
    ctx.ok("nothing is sent outside a batch", "functions outside Client")
    return r
