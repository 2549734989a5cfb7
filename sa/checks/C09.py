"""A remote call returns only a matching, successful response."""

from ..terms import mk, sym, call, const, is_const, cval, is_call, subterms, NONE
from ..api import MODULE
from ..engine import Monitor
from ..state import HObj
from ..world import make, is_log, const_of

BASE = ("SystemExit", "KeyboardInterrupt", "GeneratorExit")
RESERVED = (-32700, -32600, -32601, -32602, -32603)


def opens(name):
    return name.split(".")[-1] in ("urlopen", "_urlopen") or name in (
        "urllib.request.urlopen", "urllib2.urlopen", "six.moves.urllib.request.urlopen")


class Call(Monitor):

    def __init__(self, ctx):
        self.ctx = ctx

    def raises(self, eng, st, name, base, args, kwargs):
        if is_log(name, base):
            return []
        if name == ".format" and base is not None and is_const(base):
            return []
        if st.mon.get("net") and not (base is not None and base is st.mon.get("handle")) and not opens(name) and name in (
                "str", "repr", ".format"):
            return []
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        if opens(name) and name not in eng.funcs:
            self.ctx.count("requests")
            self.ctx.check(not st.mon.get("handle"), "one request per call", eng.loc(st, node),
                           "a second request is made by one call", st.path())
            h = call("urlopen", None, tuple(args[:1]))
            vals = tuple(args) + tuple(v for _, v in kwargs)
            st = st.setmon(net=1)
            for v in vals:
                for x in subterms(v):
                    if is_call(x, "json.dumps"):
                        st = st.setmon(request=x.args[2][0])
            exc = ("raise", st, ("Exception", False, frozenset(), mk("exc", "Exception", False, eng.site(st, node), None)))
            st2 = st.setmon(handle=h, open=1)
            o = eng.obj(st2, self.me)
            for k, v in o.items.items():
                if is_const(v) and isinstance(cval(v), int):
                    # other threads make calls meanwhile
                    o = o.set_item(k, sym("changed:" + k, "int"))
            st2 = st2.setobj(self.me.args[0], o)
            st2 = st2.setfact(h, True).setfact(eng.mkeq(h, NONE), False)
            return [("ret", st2, h), exc]
        if base is not None and base is st.mon.get("handle") and name in (".close", ".__exit__"):
            return [("cont", st.setmon(open=None))]
        if name == "json.loads" and st.mon.get("net"):
            st = st.setmon(net=None, read=1)
            t = call("response", None, ())
            exc = ("raise", st, ("Exception", False, frozenset(), mk("exc", "Exception", False, eng.site(st, node), None)))
            return [("ret", st, t), exc]
        return None

    def subscript_raises(self, eng, st, b, k):
        return b is call("response", None, ())


def run(ctx):
    ctx.rule("JSONRPC.call is run with every external call failing or not: each return has the facts version = 2.0, id = the id put in "
             "the request, no error in the response, and returns the response's result; what is raised between opening the "
             "connection and decoding the answer is ServerUnreachableError; a connection that was opened is closed; "
             "an error in the response is raised as the kind its code says, for every reserved code and others")
    ctx.assume("formatting an error message and logging do not raise; with one connection per call")
    mon = Call(ctx)
    eng = ctx.engine(mon)
    rpc = eng.find_class("JSONRPC", MODULE)
    st = eng.start(MODULE)
    unreachable = eng.find_class("ServerUnreachableError", MODULE)
    R = call("response", None, ())
    kinds = [eng.find_class(n, MODULE) for n in ("RemoteError", "RemoteMethodError")]
    for s0, me in make(eng, st, rpc, (sym("url"),), havoc=False):
        where = rpc + ".call"
        mon.me = me
        out = eng.invoke_method(s0, me, "call", (sym("method"),), (("p", sym("p")),))
        ctx.check(bool(out.rets), "a call can succeed", where, "a call never returns")
        for s, v in out.rets:
            ctx.count("successful paths")
            req = s.mon.get("request")
            o = eng.obj(s, req) if req is not None and req.op == "ref" else None
            want = o.items.get(const("id")) if o is not None else None
            ctx.check(want is not None, "a call carries an id", where, "the request has no id", s.path())
            ctx.check(holds_eq(eng, s, R, "jsonrpc", const("2.0")), "only version 2.0 is accepted", where,
                      "a result may be returned from a response of another version", s.path())
            ctx.check(want is not None and holds_eq(eng, s, R, "id", want), "only the matching response is accepted", where,
                      "a result may be returned from a response with another id", s.path())
            ctx.check(no_error(eng, s, R), "an error in the response is raised", where,
                      "a result may be returned although the response has an error", s.path())
            ok = v is mk("item", R, const("result")) or v.op == "call" and v.args[0] == ".get" and v.args[1] is R and \
                v.args[2][:1] == (const("result"),)
            ctx.check(ok, "a call returns the result", where, "a call returns %s" % (v,), s.path())
        for s, x in list(out.raises):
            if x[0] in BASE:
                continue
            ctx.count("failing paths")
            if s.mon.get("net"):
                ctx.check(eng.matches(x, unreachable) is True, "network failures are server-unreachable", where,
                          "%s from %s is raised for a failure to reach the server" % (
                              x[0], x[3].args[2] if x[3].op == "exc" else "?"), s.path())
        for s, x in list(out.rets) + list(out.raises):
            ctx.check(not s.mon.get("open"), "the connection is released", where, "a connection may be left open", s.path())
        # the kinds of error
        for code in RESERVED + (-32000, -32604, -1, 0, 1, 1000, None):
            errors(ctx, eng, s0, me, rpc, mon, code, kinds)
    ctx.need("requests", 1)
    ctx.need("successful paths", 1)
    ctx.need("failing paths", 2)
    ctx.need("error codes", 6)


def errors(ctx, eng, s0, me, rpc, mon, code, kinds):
    """A call whose response is an error with this code."""
    where = rpc + ".call"

    class Answer(Call):
        def call(self, e, st, name, base, args, kwargs, node):
            if name == "json.loads" and st.mon.get("net"):
                items = {} if code is None else {const("code"): const(code)}
                for k in ("message", "data"):
                    items[const(k)] = sym("error:" + k)
                st, err = e.new(st, HObj("dict", items=items), node, "error")
                req = st.mon.get("request")
                rid = e.obj(st, req).items.get(const("id"))
                st, r = e.new(st, HObj("dict", items={const("jsonrpc"): const("2.0"), const("id"): rid,
                                                      const("error"): err}), node, "response")
                return [("ret", st.setmon(net=None, read=1), r)]
            return Call.call(self, e, st, name, base, args, kwargs, node)
    m = Answer(ctx)
    m.me = me
    old, eng.mon = eng.mon, m
    try:
        out = eng.invoke_method(s0, me, "call", (sym("method"),), (("p", sym("p")),))
    finally:
        eng.mon = old
    ctx.count("error codes")
    for s, v in out.rets:
        ctx.bad("an error in the response is raised", where, "an error with code %s is returned as a result" % code, s.path())
    n = 0
    for s, x in out.raises:
        if not s.mon.get("read"):
            continue
        n += 1
        want = kinds[0] if code in RESERVED else kinds[1]
        ctx.check(eng.matches(x, want) is True, "errors are raised as the kind their code says", where,
                  "an error with code %s is raised as %s" % (code, x[0]), s.path())
    ctx.check(n > 0, "an error in the response is raised", where, "an error with code %s is not raised" % code)


def reads(R, key):
    k = const(key)
    yield mk("item", R, k)
    yield mk("call", ".get", R, (k,), (), None)
    yield mk("call", ".get", R, (k, NONE), (), None)


def holds_eq(eng, s, R, key, val):
    for t in list(reads(R, key)) + gets(s, R, key):
        if eng.decide(s, eng.mkeq(t, val)) is True:
            return True
    return False


def gets(s, R, key):
    r = []
    for f in s.facts:
        for x in subterms(f):
            if x.op == "call" and x.args[0] == ".get" and x.args[1] is R and x.args[2][:1] == (const(key),):
                r.append(x)
    return r


def no_error(eng, s, R):
    for t in (mk("cmp", "in", const("error"), R), mk("in", const("error"), R)):
        if eng.decide(s, t) is False:
            return True
    for t in list(reads(R, "error")) + gets(s, R, "error"):
        if eng.decide(s, eng.mkeq(t, NONE)) is True:
            return True
    return False
