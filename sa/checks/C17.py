"""Bytes for a forwarded service are delivered in order, without loss."""

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE
from ..instr import world, instruct, run_thread
from ..polls import Polls, IN
from ..state import HObj
from ..program import AnalysisError

SHUT = {0: "r", 1: "w", 2: "rw"}


class Delivery(Polls):
    """mon.conn: the connection; mon.sent: what was written to its socket; mon.shut: how the socket was shut down;
    mon.gap: something could not be written."""

    failing = True

    def fresh(self, st):
        return Polls.fresh(self, st).setmon(sent=(), shut="", gap=0)

    def raises(self, eng, st, name, base, args, kwargs):
        if name in (".setsockopt", ".settimeout", ".fileno", "socket.socket"):
            return []
        return Polls.raises(self, eng, st, name, base, args, kwargs)

    def buffer_of(self, eng, st, name):
        return st.mon.get("buffer") == name

    def conn_locks(self, eng, st):
        return [v for v in eng.obj(st, st.mon["conn"]).items.values()]

    def conn_locked(self, eng, st):
        return any(v in st.held for v in self.conn_locks(eng, st))

    def getattr(self, eng, st, b, name, node):
        if b is st.mon.get("conn") and name == st.mon.get("buffer"):
            self.report.count("uses of the buffer")
            self.report.check(self.conn_locked(eng, st), "the buffer is used under the connection's lock", eng.loc(st, node),
                              "the buffer is used without the lock", st.path(), key="buffer unlocked")
        return Polls.getattr(self, eng, st, b, name, node)

    def store(self, eng, st, b, name, v, node, out):
        if b is st.mon.get("conn") and name == st.mon.get("buffer"):
            self.report.check(self.conn_locked(eng, st), "the buffer is used under the connection's lock", eng.loc(st, node),
                              "the buffer is replaced without the lock", st.path(), key="buffer unlocked")
        return Polls.store(self, eng, st, b, name, v, node, out)

    def call(self, eng, st, name, base, args, kwargs, node):
        if st.mon.get("conn") is not None and self.is_socket(eng, st, base):
            where = eng.loc(st, node)
            if name in (".sendall", ".send", ".sendto", ".sendmsg"):
                self.report.count("writes")
                self.report.check(name == ".sendall", "what is written is written completely", where,
                                  "%s may write a part only" % name[1:], st.path(), key="partly")
                self.report.check(self.conn_locked(eng, st), "the socket is written to under the connection's lock", where,
                                  "it is written to without the lock", st.path(), key="written unlocked")
                self.report.check(not st.mon.get("gap"), "nothing follows what could not be written", where,
                                  "more is written after a failure", st.path(), key="after a gap")
                self.report.check("w" not in st.mon["shut"], "data is written before the socket is shut down", where,
                                  "data is written after the socket was shut down", st.path(), key="after shutdown")
                s = st.setmon(sent=(st.mon["sent"] + pieces(eng, st, args[0]))[:9])
                res = [("ret", s, NONE)]
                if self.failing:
                    res.append(self.exc(eng, st.setmon(gap=1), node))
                return res
            if name == ".shutdown":
                how = SHUT.get(cval(args[0]) if args and is_const(args[0]) else None, shut(args))
                s = st.setmon(shut="".join(sorted(set(st.mon["shut"] + how))))
                return [("ret", s, NONE), self.exc(eng, s, node)]
            if name == ".close":
                s = st.setmon(shut="rw")
                return [("ret", s, NONE)]
            if name == ".connect":
                return [("ret", st, NONE), self.exc(eng, st.setmon(refused_by_service=1), node, "ConnectionRefusedError")]
            if name in (".recv", ".recv_into"):
                return [("ret", self.ended(st, "the local service has closed its side"), const(b""))]
        return Polls.call(self, eng, st, name, base, args, kwargs, node)

    def is_socket(self, eng, st, b):
        return b is not None and (is_call(b, "socket.socket") or b is sym("socket") or is_call(b, "socket.create_connection"))

    def again(self, eng, st, node):
        if st.mon.get("arrived") is None:
            return
        where = eng.loc(st, node)
        self.report.count("waits of a connection")
        self.report.check(st.mon["sent"] == st.mon["arrived"], "what arrived before the connection is written once it is there",
                          where, "it goes on to wait with %s written, of %s" % (show(st.mon["sent"]), show(st.mon["arrived"])),
                          st.path(), key="before waiting")
        self.report.check(left(eng, st) == (), "what is written is not kept", where, "what was written may be written again",
                          st.path(), key="kept before waiting")

    def wait(self, eng, st, node):
        self.again(eng, st, node)
        return [self.exc(eng, self.ended(st, "waiting failed"), node)]


def shut(args):
    a = args[0] if args else None
    n = getattr(a, "args", ("",))[0] if a is not None and a.op == "ext" else ""
    return {"socket.SHUT_RD": "r", "socket.SHUT_WR": "w", "socket.SHUT_RDWR": "rw"}.get(n, "")


def pieces(eng, st, t):
    """The data written, piece by piece."""
    if is_call(t, ".join") and is_const(t.args[1]) and cval(t.args[1]) == b"":
        items = eng.known_items(st, t.args[2][0])
        if items is not None:
            return tuple(x for i in items for x in pieces(eng, st, i))
    if t.op == "fmt":
        return tuple(x for i in t.args[0] for x in pieces(eng, st, i))
    if t.op == "bin" and t.args[0] == "+":
        return pieces(eng, st, t.args[1]) + pieces(eng, st, t.args[2])
    if t.op == "call" and t.args[0] in ("bytes", "bytearray", "memoryview") and len(t.args[2]) == 1:
        return pieces(eng, st, t.args[2][0])
    if t.op == "ref":
        items = eng.known_items(st, t)
        if items is not None:
            return tuple(x for i in items for x in pieces(eng, st, i))
    if is_const(t) and cval(t) == b"":
        return ()
    return (t,)


def left(eng, st):
    """What the buffer holds."""
    v = eng.obj(st, st.mon["conn"]).items.get(st.mon["buffer"])
    if v is None:
        return None
    if v.op == "ref":
        items = eng.known_items(st, v)
        return None if items is None else tuple(x for i in items for x in pieces(eng, st, i))
    if v is NONE:
        return ()
    return pieces(eng, st, v)


def show(x):
    return "nothing" if not x else "?" if x is None else ", ".join(str(i) for i in x)


def buffers(eng, st, conn, s2):
    """The attribute that holds data that arrived before the connection."""
    a, b = eng.obj(st, conn), eng.obj(s2, conn)
    res = []
    for k, v in b.items.items():
        w = a.items.get(k)
        if v is not w:
            res.append(k)
        elif v.op == "ref" and st.heap.get(v.args[0]) is not s2.heap.get(v.args[0]):
            o = st.heap.get(v.args[0])
            if o is not None and o.key() != s2.heap[v.args[0]].key():
                res.append(k)
    return res


def run(ctx):
    ctx.rule("a forwarded connection is given data by its channel before its socket is connected, then its thread is run up to its "
             "first wait; then, with anything from none to three pieces kept, data and the close of the channel, with and without a "
             "socket, each write possible to fail: what is written is what arrived, in order, completely, once, under the lock; "
             "what cannot be written ends the connection in both directions; nothing is written after a failure or a shutdown")
    ctx.assume("sendall() writes all it is given or raises; writes after a failed one and its shutdown fail")
    mon = Delivery(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    d = [sym("data%d" % i, "bytes") for i in range(5)]
    for st, client, manager in world(eng):
        for action, values in (("open-portforward", {"service": const(b"web")}), ("open-portredirect", {})):
            s0 = mon.fresh(st.setmon(phase="instruction", slots=(), changes=0))
            values = dict(values)
            if action == "open-portforward":
                s0, values["route"] = eng.new(s0, HObj("list", items=tuple(sym("field:route%d" % i) for i in range(4))),
                                              eng.NODE, "route")
            done = set()
            for s, _ in instruct(eng, s0, manager, action, values).rets:
                if len(s.mon.get("started", ())) != 1 or s.mon.get("failed"):
                    continue
                s = s.setmon(phase="thread", changes=0)
                s.facts = {}
                s.trace = None
                for x in d:
                    s = s.setfact(x, True)
                if s.key() in done:
                    continue
                done.add(s.key())
                connection(ctx, mon, eng, s, action, d)
    ctx.need("connections", 2)
    ctx.need("waits of a connection", 2)
    ctx.need("uses of the buffer", 2)
    ctx.need("writes", 2)
    ctx.need("deliveries", 12)
    ctx.need("pieces kept", 1)


def connection(ctx, mon, eng, s, action, d):
    ctx.count("connections")
    cbs = [c for c in s.mon.get("callbacks", ())]
    if len(cbs) != 1:
        raise AnalysisError("%s gives callbacks to %d channels" % (action, len(cbs)))
    args = list(cbs[0][1]) + [NONE, NONE]
    data, close = args[0], args[1]
    conn = s.mon["started"][0]
    where = "a connection of %s" % action

    def deliver(z, x, step):
        return eng.invoke(z, data, (x,), ())

    # data before there is a socket
    cur = [s.setmon(conn=None)]
    name = None
    for i in range(2):
        nxt = []
        for z in cur:
            out = deliver(z, d[i], i)
            for z2, exc in out.raises:
                ctx.bad("data that arrives early is kept", where, "%s is raised" % exc[0], z2.path())
            for z2, _ in out.rets:
                if name is None:
                    names = buffers(eng, s, conn, z2)
                    if len(names) != 1:
                        ctx.bad("data that arrives early is kept", where, "data that arrives before the connection is not kept",
                                z2.path(), key="not kept")
                        return
                    name = names[0]
                nxt.append(z2)
        cur = nxt
    for z in cur:
        z = z.setmon(conn=conn, buffer=name)
        ctx.check(left(eng, z) == (d[0], d[1]), "data that arrives early is kept in order", where,
                  "after two pieces it keeps %s" % show(left(eng, z)), z.path(), key="kept in order")
        ctx.check(not z.mon["sent"], "data is written to the socket only", where, "data is written without a socket", z.path())
        # the thread connects
        out = run_thread(eng, z.setmon(arrived=(d[0], d[1])), conn, step=3)
        for y, x in [(y, None) for y, _ in out.rets] + list(out.raises):
            if y.mon.get("gap"):
                gap(ctx, y, where)
        # the attribute that holds the socket
        attr = set()
        for y in [y for y, _ in out.rets] + [y for y, _ in out.raises]:
            for k, v in eng.obj(y, conn).items.items():
                if mon.is_socket(eng, y, v):
                    attr.add(k)
        if len(attr) != 1:
            raise AnalysisError("the socket of a connection is not found (%s)" % sorted(attr))
        later(ctx, mon, eng, z.setmon(arrived=None), conn, name, attr.pop(), data, close, d, where)


def gap(ctx, y, where):
    ctx.count("failures to write")
    ctx.check(y.mon["shut"] == "rw", "what can not be written ends the connection", where,
              "after a failure to write the socket is shut down %s" % ({"": "not at all", "r": "for reading only", "w": "for writing only"}.get(
                  y.mon["shut"])), y.path(), key="a gap does not end it")


class Dropped(Delivery):
    """What is done to a buffer with any number of pieces in it."""

    def cut(self, eng, st, b, node):
        if b.op == "ref" and b is st.mon.get("pieces"):
            self.report.bad("data that arrives early is kept in order", eng.loc(st, node), "data that was kept is removed, without a socket",
                            st.path(), key="dropped")

    def call(self, eng, st, name, base, args, kwargs, node):
        if base is not None and name in (".pop", ".popleft", ".clear", ".remove", ".__delitem__"):
            self.cut(eng, st, base, node)
        return Delivery.call(self, eng, st, name, base, args, kwargs, node)

    def delitem(self, eng, st, b, k, node, out):
        self.cut(eng, st, b, node)
        return None

    def setitem(self, eng, st, b, k, v, node, out):
        self.cut(eng, st, b, node)
        return None


def any_number(ctx, mon, eng, z, conn, name, sock, v, data, d, where):
    """Data that arrives before there is a socket, whatever is kept already."""
    o = eng.obj(z, v)
    ctx.check(o.cls != "bounded", "data that arrives early is kept in order", where, "the buffer drops what does not fit", z.path(), key="bounded")
    m = Dropped(ctx)
    m.__dict__.update({k: x for k, x in mon.__dict__.items()})
    eng.mon = m
    try:
        y, v = eng.new(z, HObj("list", items=None), eng.NODE, "pieces")
        y = y.setmon(sent=(), shut="", gap=0, pieces=v)
        y = y.setobj(conn.args[0], eng.obj(y, conn).set_item(sock, NONE).set_item(name, v))
        for x, _ in eng.invoke(y, data, (d[4],), ()).rets:
            ctx.count("pieces kept")
            w = eng.obj(x, conn).items.get(name)
            if w is v:
                ctx.check(d[4] in eng.obj(x, w).taint, "data that arrives early is kept in order", where, "data is not kept: too much is kept "
                          "already", x.path(), key="not kept")
                continue
            a = eng.obj(x, w) if w is not None and w.op == "ref" else None
            ctx.check(a is not None and (v in a.taint or v in (a.items or ())), "data that arrives early is kept in order", where,
                      "the buffer is replaced by %s" % w, x.path(), key="replaced")
    finally:
        eng.mon = mon


def later(ctx, mon, eng, z, conn, name, sock, data, close, d, where):
    v = eng.obj(z, conn).items[name]
    if v.op == "ref":
        any_number(ctx, mon, eng, z, conn, name, sock, v, data, d, where)
    for n in range(4):
        kept = tuple(d[:n])
        v = eng.obj(z, conn).items[name]
        if v.op != "ref":
            raise AnalysisError("the buffer is no list")
        zz = z.setobj(v.args[0], eng.obj(z, v).with_(items=kept))
        for there in (False, True):
            y = zz.setobj(conn.args[0], eng.obj(zz, conn).set_item(sock, sym("socket") if there else NONE))
            if there:
                y = y.setfact(sym("socket"), True).setfact(eng.mkeq(sym("socket"), NONE), False)
            y = y.setmon(sent=(), shut="", gap=0)
            for what, f, args in (("data", data, (d[4],)), ("the close", close, ())):
                if what == "the close" and (f is NONE or f is None):
                    continue
                ctx.count("deliveries")
                w = "%s: %s with %d piece(s) kept, %s" % (where, what, n, "connected" if there else "not connected yet")
                k = "%s %s" % (what, there)
                want = kept + args
                out = eng.invoke(y, f, args, ())
                ctx.check(bool(out.rets), "data is taken", w, "%s is never taken" % what, y.path(), key=k + " taken")
                for x, exc in [(x, None) for x, _ in out.rets] + list(out.raises):
                    if x.mon.get("gap"):
                        gap(ctx, x, w)
                        continue
                    ctx.check(not x.held, "locks are released", w, "a lock is held at the end", x.path(), key=k + " held")
                    if exc is not None:
                        # closing the socket may fail, that is no loss
                        ctx.check(x.mon["sent"] == (want if there else ()), "data is written in order, once", w,
                                  "%s with %s written, of %s" % (exc[0], show(x.mon["sent"]), show(want)), x.path(), key=k + " raises")
                        continue
                    if there:
                        ctx.check(x.mon["sent"] == want, "data is written in order, once", w,
                                  "%s is written, of %s" % (show(x.mon["sent"]), show(want)), x.path(), key=k + " written")
                        ctx.check(left(eng, x) == (), "what is written is not kept", w, "%s is kept" % show(left(eng, x)), x.path(),
                                  key=k + " still kept")
                        if what == "the close":
                            ctx.check("w" in x.mon["shut"], "the service is told of the close", w,
                                      "the socket is not shut down", x.path(), key=k + " shut")
                        else:
                            ctx.check(x.mon["shut"] == "", "data does not end the connection", w, "the socket is shut down",
                                      x.path(), key=k + " shut")
                    else:
                        ctx.check(not x.mon["sent"] and left(eng, x) == want, "data that arrives early is kept in order", w,
                                  "%s is kept, of %s" % (show(left(eng, x)), show(want)), x.path(), key=k + " kept")
