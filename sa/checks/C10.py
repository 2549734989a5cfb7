"""A batch is sent exactly once and never reports a false success."""

import itertools

from ..terms import mk, sym, call, const, is_const, cval, is_call, subterms, NONE
from ..api import MODULE
from ..engine import Monitor
from ..state import HObj
from ..world import make, is_log, const_of
from .C09 import opens


class Sending(Monitor):

    response = None       # how to build the response

    def __init__(self, ctx):
        self.ctx = ctx

    def raises(self, eng, st, name, base, args, kwargs):
        if is_log(name, base):
            return []
        if name == ".format" and base is not None and is_const(base):
            return []
        return None

    def exc(self, eng, st, node):
        return ("raise", st, ("Exception", False, frozenset(), mk("exc", "Exception", False, eng.site(st, node), None)))

    def call(self, eng, st, name, base, args, kwargs, node):
        if opens(name) and name not in eng.funcs:
            self.ctx.count("requests")
            body = None
            for v in tuple(args) + tuple(v for _, v in kwargs):
                for x in subterms(v):
                    if is_call(x, "json.dumps"):
                        body = x.args[2][0]
            calls = self.read(eng, st, body)
            st = st.setmon(sent=st.mon.get("sent", ()) + (calls,))
            return [("ret", st, call("urlopen", None, ())), self.exc(eng, st, node)]
        if name == "json.loads" and st.mon.get("sent"):
            if self.response is None:
                return [("ret", st, call("response", None, ())), self.exc(eng, st, node)]
            st, r = self.response(eng, st, node)
            return [("ret", st, r)]
        return None

    def read(self, eng, st, body):
        items = eng.known_items(st, body) if body is not None else None
        if items is None:
            return None
        r = []
        for x in items:
            o = eng.obj(st, x) if x.op == "ref" else None
            if o is None or o.kind != "dict" or o.rest:
                return None
            d = {}
            for k, v in o.items.items():
                p = eng.obj(st, v) if v.op == "ref" else None
                d[cval(k)] = tuple(sorted((cval(a), b) for a, b in p.items.items())) if p is not None else v
            r.append(tuple(sorted(d.items(), key=lambda kv: kv[0])))
        return tuple(r)


def run(ctx):
    ctx.rule("a batch is made, filled and left: each way of leaving its block (normally, by an exception, abandoned) sends it once, or "
             "not at all; what is sent are the calls in the order added, with distinct ids; then for responses of up to two "
             "entries of every kind (result or error, for this id or another) get_result and check return only a "
             "result entry of that id and raise the remote error of an error entry")
    ctx.assume("responses of more entries are treated entry by entry, like those of two")
    mon = Sending(ctx)
    eng = ctx.engine(mon)
    rpc = eng.find_class("JSONRPC", MODULE)
    st = eng.start(MODULE)
    for s0, conn in make(eng, st, rpc, (sym("url"),), havoc=False):
        out = eng.invoke_method(s0, conn, "batch")
        for s1, b in out.rets:
            batch(ctx, eng, mon, s1, conn, b)
    ctx.need("requests", 2)
    ctx.need("responses", 20)
    ctx.need("batches filled", 1)


def step(eng, states, b, name, args, kw=(), n=None):
    r = []
    for s in states:
        r += [x for x, _ in eng.invoke_method(s, b, name, args, kw, step=n).rets]
    return r


def batch(ctx, eng, mon, st, conn, b):
    where = eng.find_class("Batch", MODULE)
    states = [s for s, v in eng.invoke_method(st, b, "__enter__").rets if v is b]
    ctx.check(bool(states), "a batch is its own context", where + ".__enter__", "entering a batch gives something else")
    if not states:
        return
    p, q, r = sym("p"), sym("q"), sym("r")
    plan = [("call_with_id", ("a", "m1"), p), ("call", ("m2",), q), ("call_with_id", ("b", "m3"), r), ("call", ("m4",), p)]
    for n, (meth, args, v) in enumerate(plan):
        states = step(eng, states, b, meth, tuple(const(x) for x in args), (("x", v),), n=n + 1)
    ctx.check(len(states) > 0, "calls can be added", where, "adding a call fails")
    for s in states:
        # the same id again
        out = eng.invoke_method(s, b, "call_with_id", (const("a"), const("m5")), (("x", q),), step=9)
        ctx.check(not out.rets, "a duplicate id is refused", where + ".call_with_id", "an id may be used twice")
        dup = [x for x, _ in out.raises]
        for extra, t in [(False, s)] + [(True, x) for x in dup]:
            ctx.count("batches filled")
            leave(ctx, eng, mon, t, b, where, extra)
    full = states
    # a batch made afterwards starts empty
    for s in states:
        for s2, b2 in eng.invoke_method(s, conn, "batch", (), (), step=30).rets:
            added = step(eng, [s2], b2, "call_with_id", (const("a"), const("n1")), (("x", q),), n=31)
            ctx.check(bool(added), "batches share no calls", where + ".call_with_id",
                      "an id used in one batch can't be used in the next", s2.path())
            for s3 in added:
                mon.response = None
                out = eng.invoke_method(s3, b2, "__exit__", (NONE, NONE, NONE), (), step=32)
                for t, _ in out.rets:
                    calls = (t.mon.get("sent") or (None,))[0]
                    ctx.check(calls is not None and len(calls) == 1, "batches share no calls", where,
                              "a batch is sent with calls of another", t.path())
                ctx.check(bool(out.rets), "batches share no calls", where, "a second batch is not sent")
    # --- left by an exception, or abandoned
    e = mk("exc", "ValueError", True, "body", None)
    for s in full:
        out = eng.invoke_method(s, b, "__exit__", (mk("attr", e, "__class__"), e, mk("attr", e, "tb")))
        for t, v in list(out.rets) + list(out.raises):
            ctx.check(not t.mon.get("sent"), "a failed block sends nothing", where + ".__exit__",
                      "a batch whose block raised is sent", t.path())
        for t, v in out.rets:
            ctx.check(eng.decide(t, v) is False, "a failed block is not hidden", where + ".__exit__",
                      "the exception of the block is swallowed", t.path())
        ctx.check(bool(out.rets), "a failed block is not hidden", where + ".__exit__", "the exception is replaced by another")
        for t in step(eng, [s], b, "abandon", ()):
            out = eng.invoke_method(t, b, "__exit__", (NONE, NONE, NONE))
            for u, v in list(out.rets) + list(out.raises):
                ctx.check(not u.mon.get("sent"), "an abandoned batch is not sent", where + ".__exit__",
                          "an abandoned batch is sent", u.path())
    # --- outcome before anything is sent
    for s in full:
        out = eng.invoke_method(s, b, "get_result", (const("a"),))
        ctx.check(not out.rets, "no result before an answer", where + ".get_result", "a batch that was not sent has a result")
    lookups(ctx, eng, mon, full[0], b, where)


def leave(ctx, eng, mon, s, b, where, extra):
    mon.response = None
    out = eng.invoke_method(s, b, "__exit__", (NONE, NONE, NONE))
    ends = list(out.rets) + [(t, x) for t, x in out.raises]
    tried = 0
    for t, v in ends:
        sent = t.mon.get("sent", ())
        is_ret = any(t is u for u, _ in out.rets)
        if not sent and not is_ret:
            continue      # the request itself can't be made
        tried += 1
        ctx.check(len(sent) == 1, "a completed block sends the batch once", where + ".__exit__",
                  "a batch is sent %d times" % len(sent), t.path())
        for calls in sent[:1]:
            good = calls is not None and len(calls) == 4
            ctx.check(good, "the calls are sent as added", where + ".send", "%s calls are sent" % (
                "unknown" if calls is None else len(calls)), t.path())
            if not good:
                continue
            ds = [dict(c) for c in calls]
            got = [(const_of(d.get("method")), dict(d["params"]).get("x") if isinstance(d.get("params"), tuple) else None)
                   for d in ds]
            want = [("m1", sym("p")), ("m2", sym("q")), ("m3", sym("r")), ("m4", sym("p"))]
            ctx.check(got == want, "the calls are sent as added", where + ".send", "the calls sent are %s" % (got,), t.path())
            ids = [d.get("id") for d in ds]
            ctx.check(all(i is not None for i in ids) and len(set(ids)) == 4, "every call has an id of its own", where + ".call",
                      "the ids of the calls are %s" % (ids,), t.path())
            ctx.check(ids[0] is const("a") and ids[2] is const("b"), "a call goes under the id given", where + ".call_with_id",
                      "the ids of the calls are %s" % (ids,), t.path())
            ctx.check(all(d.get("jsonrpc") is const("2.0") for d in ds), "the calls are sent as added", where + ".call",
                      "a call is sent without the protocol version", t.path())
    ctx.check(tried > 0 and bool(out.rets), "a completed block sends the batch once", where + ".__exit__", "a batch is never sent")


KINDS = ("result a", "error a", "empty-error a", "both a", "result b", "error b", "nothing c")


def lookups(ctx, eng, mon, s0, b, where):
    shapes = [()] + [(k,) for k in KINDS] + list(itertools.permutations(KINDS, 2))
    remote = eng.find_class("JSONRPCError", MODULE)
    for shape in shapes:
        kinds = [k for k in shape if k.endswith(" a")]
        if len(kinds) > 1:
            continue        # two answers for one call
        ctx.count("responses")

        def response(e, st, node, shape=shape):
            items = []
            for i, k in enumerate(shape):
                what, cid = k.split()
                d = {const("jsonrpc"): const("2.0"), const("id"): const(cid)}
                if what in ("result", "both"):
                    d[const("result")] = sym("result:" + cid)
                if what in ("error", "both", "empty-error"):
                    items_ = {} if what == "empty-error" else {const("code"): const(-1), const("message"): const("no")}
                    st, err = e.new(st, HObj("dict", items=items_), node, "error%d" % i)
                    d[const("error")] = err
                st, r = e.new(st, HObj("dict", items=d), node, "entry%d" % i)
                items.append(r)
            return e.new(st, HObj("list", items=tuple(items)), node, "response")
        mon.response = response
        out = eng.invoke_method(s0, b, "__exit__", (NONE, NONE, NONE))
        what = " and ".join(shape) or "nothing"
        for t, v in out.rets:
            good = kinds == ["result a"]
            bad = bool(kinds) and not good
            r = eng.invoke_method(t, b, "get_result", (const("a"),))
            c = eng.invoke_method(t, b, "check", (const("a"),))
            c2 = eng.invoke_method(t, b, "check", (const("b"), const("a")))
            if good:
                ctx.check(bool(r.rets) and all(v is sym("result:a") for _, v in r.rets), "a lookup returns the result of its call",
                          where + ".get_result", "with %s in the response get_result gives %s" % (what, [v for _, v in r.rets]))
                ctx.check(bool(c.rets), "a lookup returns the result of its call", where + ".check",
                          "with %s in the response check fails" % what)
            else:
                ctx.check(not r.rets, "a lookup never succeeds falsely", where + ".get_result",
                          "with %s in the response get_result(a) succeeds" % what)
                ctx.check(not c.rets, "a lookup never succeeds falsely", where + ".check",
                          "with %s in the response check(a) succeeds" % what)
            if not (good and "result b" in shape):
                ctx.check(not c2.rets, "a lookup never succeeds falsely", where + ".check",
                          "with %s in the response check(b, a) succeeds" % what)
            if bad:
                ctx.check(bool(r.raises) and all(eng.matches(x, remote) is True for _, x in r.raises),
                          "a remote error is raised", where + ".get_result", "with %s in the response get_result raises %s" % (
                              what, [x[0] for _, x in r.raises]))
        if not any(k.startswith("nothing") for k in shape):
            ctx.check(bool(out.rets), "an answer is taken in", where + ".send", "a response with %s is refused" % what)
    # a response that is not a list
    for kind in ("dict",):
        mon.response = lambda e, st, node: e.new(st, HObj("dict", items={const("error"): NONE}), node, "response")
        out = eng.invoke_method(s0, b, "__exit__", (NONE, NONE, NONE))
        for t, v in out.rets:
            r = eng.invoke_method(t, b, "get_result", (const("a"),))
            ctx.check(not r.rets, "a lookup never succeeds falsely", where + ".send", "an answer that is no list is taken as success")
    mon.response = None
