"""Messages from concurrent threads are put on the wire one at a time."""

import ast

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE
from ..engine import Monitor
from ..world import make, is_log, param_syms
from ..program import AnalysisError

MODULE = "dataplicity.m2m.wsclient"
SENDS = (".send_binary", ".send_text", ".send_json", ".send_compressed", ".send_ping", ".send_pong")
PACKS = (".compress",)
ERRORS = ("lomond.errors.WebSocketError", "lomond.errors.WebSocketUnavailable", "lomond.errors.WebSocketClosed",
          "lomond.errors.TransportFail")


class Sends(Monitor):

    def __init__(self, ctx):
        self.ctx = ctx
        self.sites = set()
        self.locks = set()

    def raises(self, eng, st, name, base, args, kwargs):
        if is_log(name, base):
            return []
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        if base is None or base.op == "ref" and eng.obj(st, base) is not None and eng.obj(st, base).kind == "inst" \
                and not self.websocket(eng, st, base):
            return None
        if name in SENDS + PACKS or name == ".send" and self.websocket(eng, st, base):
            where = eng.loc(st, node)
            self.sites.add((node.lineno, node.col_offset))
            me = st.mon["me"]
            mine = [v for v in eng.obj(st, me).items.values()]
            held = [l for l in st.held if any(v is l for v in mine)]
            self.ctx.count("sends")
            self.ctx.check(bool(held), "a message is compressed and written under the connection's lock", where,
                           "%s is called %s" % (name[1:], "under a lock other senders do not use" if st.held else
                                                "without a lock"), st.path(), key="unlocked " + name)
            for l in held:
                self.locks.add(l)
            if name in PACKS:
                s = st.setmon(packed=1)
            else:
                s = st.setmon(packed=0, sent=min(st.mon.get("sent", 0) + 1, 3))
            t = call("sent", None, (), (), eng.uid(st, node))
            res = [("ret", eng.purge(s, t), t)]
            for e in ERRORS:
                res.append(("raise", st.setmon(unavailable=1), (e, True, frozenset(), mk("exc", e, True, eng.site(st, node), None))))
            return res
        return None

    def websocket(self, eng, st, b):
        return any("WebSocket" in str(x.args[0]) for x in subterms(b) if x.op in ("call", "ext", "ref", "attr")) or \
            b.op == "attr" and b.args[1] == "websocket"

    def release(self, eng, st, lock, node):
        self.ctx.check(not st.mon.get("packed") or st.mon.get("unavailable"),
                       "nothing is sent between compressing a message and writing it", eng.loc(st, node),
                       "the lock is released after the message has been compressed and before it is written", st.path(),
                       key="packed")
        return st.setmon(packed=0)


def run(ctx):
    ctx.rule("every function that writes to the websocket is followed with any message: the write happens while a lock is held that "
             "the client keeps (the same for all writes), which is released at every end, and if the websocket reports that it is "
             "unavailable nothing is raised to the sender")
    ctx.assume("lomond reports an unavailable connection by WebSocketError and its subclasses; its send_binary() compresses and "
               "writes in one call")
    mon = Sends(ctx)
    eng = ctx.engine(mon)
    cid = eng.find_class("WSClient", MODULE)
    st = eng.start(MODULE)
    sites = sends(eng)
    made = make(eng, st, cid, havoc=False)
    for s, me in made:
        s = s.setmon(me=me, unavailable=0, sent=0, packed=0)
        for name, args in (("send", (sym("packet"),)), ("send_bytes", (sym("packet bytes", "bytes"),))):
            if eng.class_attr(cid, name) is not None:
                look(ctx, eng, s, me, name, args)
        # anywhere else
        for (qual, cls), where in sorted(sites.items(), key=str):
            if qual in eng.stats["functions"]:
                continue
            f = eng.funcs[qual]
            if cls == cid:
                look(ctx, eng, s, me, f.node.name, tuple(param_syms(eng, qual)))
            else:
                ctx.bad("a message is compressed and written under the connection's lock", where[0],
                        "the websocket is written to outside of the client", key="outside " + qual)
    ctx.check(len(mon.locks) <= max(1, len(made)), "there is one lock for all writes", cid, "writes use different locks",
              key="locks")
    ctx.need("sends", 1)
    ctx.need("failures to send", 1)


def look(ctx, eng, s, me, name, args):
    where = "%s.%s" % (eng.obj(s, me).cls, name)
    out = eng.invoke_method(s, me, name, args)
    ends = [(z, None) for z, _ in out.rets] + list(out.raises)
    for z, x in ends:
        ctx.check(not z.held, "the lock is released", where, "the lock is held at the end", z.path(), key=name + " lock")
        if name in ("send", "send_bytes") and not z.mon.get("unavailable") and x is None:
            ctx.count("messages sent")
            ctx.check(z.mon.get("sent") == 1, "each message is written, once", where, "the message is written %s" % (
                "more than once" if z.mon.get("sent") else "not at all: it ends without writing although the connection is available"),
                z.path(), key=name + " once")
        if z.mon.get("unavailable"):
            ctx.count("failures to send")
            ctx.check(x is None, "failure to send is not raised to the sender", where,
                      "%s is raised when the connection is unavailable" % (x[0] if x else None), z.path(), key=name + " raises")


def sends(eng):
    """{(function, class): [place]} of all functions that write to the websocket."""
    res = {}
    for q, f in eng.funcs.items():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and "." + n.func.attr in SENDS:
                res.setdefault((q, f.cls), []).append("%s:%d" % (eng.mods[f.module].rel, n.lineno))
    # the innermost function only
    return {(q, c): w for (q, c), w in res.items() if not any(
        o != q and o.startswith(q + ".<locals>") for o, _ in res)}
