"""Port forwarding reaches loopback services only."""

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE
from ..instr import Channels, world, instruct, run_thread, field, is_field
from ..world import const_of, is_log

SERVICES = {"web": 80, "ext": 81, "extalt": 8000, "alt": 8080}


class Connects(Channels):
    write_fails = False

    def __init__(self, ctx):
        self.ctx = ctx
        self.found = []

    def raises(self, eng, st, name, base, args, kwargs):
        if is_log(name, base) or name in ("socket.socket", ".setsockopt", ".settimeout"):
            return []
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        a = None
        if name in (".connect", ".connect_ex", "socket.create_connection") and args and not (
                base is not None and base.op == "ref" and eng.obj(st, base) is not None and eng.obj(st, base).kind == "inst"):
            a = args[0]
        elif name in (".sendto",):
            a = args[-1]
        if a is not None:
            self.found.append((st, a, eng.loc(st, node)))
            return [("raise", st.setmon(connected=a), ("OSError", True, frozenset(), mk(
                "exc", "OSError", True, eng.site(st, node), None)))]
        return Channels.call(self, eng, st, name, base, args, kwargs, node)


def address(eng, st, a):
    items = a.args[0] if a.op == "tuple" else eng.known_items(st, a) if a.op == "ref" else None
    if items is None or len(items) < 2:
        return None, None
    return items[0], items[1]


def loopback(h):
    h = const_of(h)
    h = h.decode() if isinstance(h, bytes) else h
    if not isinstance(h, str):
        return False
    p = h.split(".")
    return h in ("localhost", "::1") or len(p) == 4 and p[0] == "127" and all(x.isdigit() and int(x) < 256 for x in p)


def plain(t, name):
    """t is the field itself (decoded, or turned into a number)."""
    while t.op == "call" and (t.args[0] == ".decode" or t.args[0] in ("int", "str")):
        t = t.args[1] if t.args[0].startswith(".") else t.args[2][0]
    return t.op == "sym" and t.args[0] == "field:" + name


def run(ctx):
    ctx.rule("the agent is constructed and given forwarding and redirection instructions with any content (and names and ports of "
             "services, as constants); every thread this starts is run up to its connection: the address is a constant loopback "
             "address, the port the service's own or the instruction's device port; an unknown name connects nowhere")
    ctx.assume("a named service's own port: web 80, ext 81, extalt 8000, alt 8080")
    mon = Connects(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    for st, client, manager in world(eng):
        # the server's instructions
        for name in sorted(SERVICES) + ["unknown", None]:
            v = {"service": const(name.encode())} if name else {}
            st2, route = eng.new(st, hlist(4), eng.NODE, "route")
            v["route"] = route
            out = instruct(eng, st2, manager, "open-portforward", v)
            what = "open-portforward %s" % (name or "with any name")
            found = threads(ctx, mon, eng, out, what)
            if name == "unknown":
                ctx.check(not found, "an unknown name opens no connection", what, "a connection is opened")
            elif name:
                ctx.check(bool(found), "a named service is connected to", what, "no connection is attempted")
            else:
                ports = set()
                for s, a, where in found:
                    h, p = address(eng, s, a)
                    ports.add(const_of(p) if p is not None else None)
                ctx.check(ports <= set(SERVICES.values()), "a name leads to a service's port", what,
                          "the port is %s" % sorted(map(str, ports)))
            for s, a, where in found:
                check(ctx, eng, s, a, where, what, SERVICES.get(name), name is not None)
        out = instruct(eng, st, manager, "open-portredirect")
        found = threads(ctx, mon, eng, out, "open-portredirect")
        ctx.check(bool(found), "a redirect is connected to", "open-portredirect", "no connection is attempted")
        for s, a, where in found:
            check(ctx, eng, s, a, where, "open-portredirect", None, True, redirect="device_port")
        # once more, after earlier instructions
        first = [x for x, _ in instruct(eng, st, manager, "open-portredirect").rets if x.mon.get("started")][:1]
        for x in first:
            x2, route = eng.new(x, hlist(4), eng.NODE, "route")
            first2 = [y for y, _ in instruct(eng, x2, manager, "open-portforward", {"service": const(b"ext"), "route": route}).rets
                      if len(y.mon.get("started", ())) > len(x.mon.get("started", ()))][:1]
            for y in first2:
                y = y.setmon(started=(), connected=None)
                out = instruct(eng, y, manager, "open-portredirect", {"device_port": sym("field:device_port2")})
                for s, a, where in threads(ctx, mon, eng, out, "a second open-portredirect"):
                    check(ctx, eng, s, a, where, "a second open-portredirect", None, True, redirect="device_port2")
                for name in sorted(SERVICES) + ["unknown"]:
                    out = instruct(eng, y, manager, "open-portforward", {"service": const(name.encode()), "route": route})
                    found = threads(ctx, mon, eng, out, "open-portforward")
                    if name == "unknown":
                        ctx.check(not found, "an unknown name opens no connection", "a later open-portforward", "a connection is opened")
                    for s, a, where in found:
                        check(ctx, eng, s, a, where, "a later open-portforward %s" % name, SERVICES.get(name), True)
        # by port
        pf = [v for v in eng.obj(st, client).items.values() if isinstance(v, T) and v.op == "ref" and eng.obj(st, v) is not None
              and (eng.obj(st, v).cls or "").endswith("PortForwardManager")]
        for m in pf:
            for port in sorted(SERVICES.values()) + [22]:
                out = eng.invoke_method(st, m, "open", (lim(eng, st, manager), sym("m2m port")), (("port", const(port)),))
                found = threads(ctx, mon, eng, out, "open port %s" % port)
                for s, a, where in found:
                    check(ctx, eng, s, a, where, "open port %s" % port, port, True)
    ctx.need("connection attempts", 8)
    ctx.need("instructions", 9)


def lim(eng, st, manager):
    for v in eng.obj(st, manager).items.values():
        if isinstance(v, T) and v.op == "ref" and eng.obj(st, v) is not None and (eng.obj(st, v).cls or "").endswith("Limiter"):
            return v
    return sym("limiter")


def hlist(n):
    from ..state import HObj
    return HObj("list", items=tuple(sym("field:route%d" % i) for i in range(n)))


def threads(ctx, mon, eng, out, what):
    ctx.count("instructions")
    mon.found = []
    for s, v in list(out.rets) + [(s, x) for s, x in out.raises]:
        for i, t in enumerate(s.mon.get("started", ())):
            run_thread(eng, s, t, step=i + 1)
    return mon.found


def check(ctx, eng, st, a, where, what, port, known, redirect=False):
    ctx.count("connection attempts")
    h, p = address(eng, st, a)
    ctx.check(h is not None and loopback(h), "only loopback is connected to", "%s (%s)" % (what, where),
              "the address is %s" % (a if h is None else h,), st.path(), key="%s host" % what)
    if redirect:
        ctx.check(p is not None and plain(p, redirect), "a redirect goes to the device port asked for", "%s (%s)" % (what, where),
                  "the port is %s" % (p,), st.path(), key="%s port" % what)
    elif known and port is not None:
        ctx.check(p is not None and const_of(p) == port, "a service is reached on its own port", "%s (%s)" % (what, where),
                  "the port is %s, not %s" % (p, port), st.path(), key="%s port" % what)
    elif not known:
        ctx.check(p is not None and is_const(p), "a service is reached on its own port", "%s (%s)" % (what, where),
                  "the port is %s" % (p,), st.path(), key="%s port" % what)
