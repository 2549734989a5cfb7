"""Only well-formed packets reach a handler."""

from ..terms import mk, sym, call, const, is_const, cval, is_call, subterms, NONE, ext
from ..engine import Monitor
from .. import packets

DISPATCH = "dataplicity.m2m.dispatcher"


class Make(Monitor):
    """Constructing packets."""

    def raises(self, eng, st, name, base, args, kwargs):
        return None


def known_type(eng, st, v, t):
    """Is v known to be an instance of the declared type?"""
    if is_const(t) and cval(t) is None:
        return True
    if eng.decide(st, mk("call", "isinstance", None, (v, t), (), None)) is True:
        return True
    items = eng.known_items(st, t)
    names = packets.type_names(eng, st, t) or ()
    if eng.typeof(st, v) in names:
        return True
    for x in items or ():
        if eng.decide(st, mk("call", "isinstance", None, (v, x), (), None)) is True:
            return True
    return False


class Dispatch(Monitor):

    def __init__(self, ctx, base):
        self.ctx = ctx
        self.base = base

    def from_registry(self, t):
        return any(x.op == "attr" and x.args[1] == "registry" for x in subterms(t)) or any(
            x.op == "ref" and x in self.registries for x in subterms(t))

    def from_handlers(self, t):
        return any(x.op == "attr" and "handler" in x.args[1] for x in subterms(t))

    def call(self, eng, st, name, base, args, kwargs, node):
        if name == "call" and base is not None:
            if self.from_registry(base):
                self.ctx.count("packet constructions")
                self.ctx.check(any(x in (sym("packet_type", "int"), sym("packet_type")) for x in subterms(base)),
                               "the packet class is that of the incoming type", eng.loc(st, node),
                               "a packet class is taken that the incoming type does not name: %s" % (base,), st.path())
                t = call("packet", None, (), (), eng.uid(st, node))
                st = eng.purge(st, t)
                return [("ret", st.setmon(packet=t), t),
                        ("raise", st, ("Exception", False, frozenset(), mk(
                            "exc", "Exception", False, eng.site(st, node), None)))]
            if self.from_handlers(base):
                self.ctx.count("handler calls")
                p = st.mon.get("packet")
                where = eng.loc(st, node)
                self.ctx.check(p is not None, "a handler runs only for a packet that was created", where,
                               "a handler may run although no packet object was validated", st.path())
                if p is not None:
                    own = [x for x in subterms(base) if x is mk("attr", p, "type")]
                    asked = [x for x in subterms(base) if x is sym("packet_type", "int")]
                    self.ctx.check(bool(own or asked), "the handler is that of the packet's type", where,
                                   "the handler is not looked up by the type of the packet", st.path())
                    loose = [x for a in tuple(args) + tuple(v for _, v in kwargs) for x in subterms(a)
                             if x is sym("packet_body") and not any(z is p for z in subterms(a))]
                    self.ctx.check(not loose, "a handler gets the fields of the packet", where,
                                   "a handler gets fields that were not validated", st.path())
        return None


def run(ctx):
    ctx.rule("constructing any packet class with any number of positional fields and any named fields either raises or ends "
             "with every declared field set to a value known to be of the declared type; the registry holds each class under its "
             "own type; a handler is called only after a class from the registry was instantiated, for that packet's type, "
             "with that packet's fields")
    ctx.assume("isinstance(v, t) is the meaning of 'of type t'")
    mon = Make()
    eng = ctx.engine(mon)
    st = eng.start(packets.MODULE)
    table = packets.table(eng, st)
    ctx.count("packet classes", len(table))
    ctx.need("packet classes", 30)
    for cid, tname, number, fields in table:
        n = len(fields)
        shapes = [(k, None) for k in range(0, n + 2)]
        if n == 1 and not any(len(f) == 1 for c, _, _, f in table if c < cid):
            shapes.append((0, "**"))
        # the rest by name; or all but one of the rest
        for k in range(n):
            shapes.append((k, "names"))
        for k in range(n):
            shapes.append((0, k))
        for k, more in shapes:
            args = tuple(sym("v%d" % i) for i in range(k))
            kw = ()
            if more == "**":
                kw = (("**", sym("kw", "dict")),)
            elif more == "names":
                kw = tuple((f[0], sym("w%d" % i)) for i, f in list(enumerate(fields))[k:])
            elif isinstance(more, int):
                kw = tuple((f[0], sym("w%d" % i)) for i, f in enumerate(fields) if i != more)
                kw += (("other", sym("z")),)
            out = eng.newout()
            rets = eng.instantiate(st, mk("class", cid), args, kw, eng.NODE, out)
            where = cid
            if n == 0 or k >= n or more in ("**", "names"):
                ctx.check(bool(rets), "a complete packet can be made", where,
                          "a packet with all of its fields is never accepted (%d positional, %s)" % (k, more))
            for s, r in rets:
                ctx.count("constructed")
                o = eng.obj(s, r)
                for fname, tn, tt in fields:
                    v = o.items.get(fname)
                    ctx.check(v is not None, "every declared field is set", "%s.%s" % (cid, fname),
                              "a packet may exist without field %s (%d positional values%s)" % (
                                  fname, k, ", " + str(more) if more is not None else ""), s.path())
                    if v is not None:
                        ctx.check(known_type(eng, s, v, tt), "every declared field has its type",
                                  "%s.%s" % (cid, fname), "field %s may hold a value that is not %s: %s" % (
                                      fname, tn, v), s.path())
    # the registry
    reg = None
    for c in eng.mro(table[0][0]):
        k = eng.classes.get(c)
        if k is not None and "registry" in k.attrs:
            reg = k.attrs["registry"]
            break
    ctx.check(reg is not None, "packet classes have a registry", "registry", "no registry of packet classes")

    # dispatching
    mon = Dispatch(ctx, None)
    eng = ctx.engine(mon)
    mon.registries = set()
    for k in eng.classes.values():
        if "registry" in k.attrs:
            mon.registries.add(k.attrs["registry"])
    st = eng.start(DISPATCH)
    cid = eng.find_class("Dispatcher", DISPATCH)
    me = sym("self", cid)
    base = eng.find_class("M2MPacket", packets.MODULE)
    for ptype in (sym("packet_type", "int"), sym("packet_type")):
        out0 = eng.newout()
        for s in eng.setattr_(st, me, "_packet_cls", mk("class", base), eng.NODE, out0):
            eng.invoke_method(s, me, "dispatch", [ptype, sym("packet_body", "list")])
    ctx.need("packet constructions", 1)
    ctx.need("handler calls", 1)
