"""Wire layout of packets stays compatible with the M2M server."""

from ..terms import mk, sym, call, const, is_const, cval, is_call, subterms, NONE, ext, T
from ..engine import Monitor
from ..state import HObj
from ..wire import Wire, unwrap
from ..world import const_of, young
from .. import packets

# The published protocol: packet numbers, and the kinds of their fields in order.
NUMBERS = {
    'null': 0, 'request_join': 1, 'request_identify': 2, 'welcome': 3, 'log': 4, 'request_send': 5,
    'route': 6, 'ping': 7, 'pong': 8, 'set_identity': 9, 'request_open': 10, 'request_close': 11,
    'request_close_all': 12, 'keep_alive': 13, 'notify_open': 14, 'request_login': 15, 'instruction': 16,
    'notify_login_success': 17, 'notify_login_fail': 18, 'notify_close': 19, 'request_leave': 20,
    'route_control': 21, 'request_send_control': 22, 'open_remote_file': 24, 'open_remote_file_result': 25,
    'close_remote_file': 26, 'read_remote_file': 27, 'read_remote_file_result': 28,
    'scan_remote_directory': 29, 'scan_remote_directory_result': 30, 'write_remote_file': 31,
    'write_remote_file_result': 32, 'response': 100, 'command_add_route': 101,
    'command_send_instruction': 102, 'command_log': 103, 'command_broadcast_log': 104,
    'command_set_name': 106, 'command_check_nodes': 107, 'command_get_identities': 108,
    'command_set_auth': 109, 'command_set_meta': 110, 'command_get_meta': 111, 'peer_add_route': 200,
    'peer_forward': 201, 'peer_notify_disconnect': 202, 'peer_notify_name': 203, 'peer_close_port': 204,
}
FIELDS = {
    0: '', 1: '', 2: 'bytes', 3: '', 4: 'bytes', 5: 'int bytes', 6: 'int bytes', 7: 'bytes', 8: 'bytes',
    9: 'bytes', 11: 'int', 13: '', 14: 'int', 15: 'bytes bytes', 16: 'bytes dict', 17: 'bytes', 18: 'bytes',
    19: 'int', 20: '', 21: 'int bytes', 22: 'int bytes', 24: 'bytes bytes', 25: 'bytes int int bytes',
    26: 'bytes', 27: 'bytes int int', 28: 'bytes int int bytes int bytes', 29: '', 30: 'bytes',
    31: 'bytes bytes bytes int bytes int', 32: 'bytes int int bytes int bytes', 100: 'int dict',
    101: 'int bytes int bytes int bytes int', 102: 'int bytes dict', 103: 'int bytes bytes', 104: 'int bytes',
    106: 'int bytes bytes', 107: 'int list', 108: 'int list', 109: 'int int bytes',
    110: 'int bytes bytes bytes bytes', 111: 'int bytes bytes', 200: 'int bytes bytes int bytes int',
    201: 'bytes bytes', 202: 'bytes', 203: 'bytes bytes', 204: 'bytes int',
}

# What the server sends to the agent.
INCOMING = (0, 3, 4, 6, 7, 9, 14, 16, 17, 19, 21, 24, 26, 27, 29, 31, 100)

CLIENT = "dataplicity.m2m.wsclient"
DISPATCH = "dataplicity.m2m.dispatcher"


def handlers(eng, cid):
    """{packet number: [method names]} of the methods exposed to the dispatcher."""
    res = {}
    for c in eng.mro(cid):
        k = eng.classes.get(c)
        for n, v in (k.attrs.items() if k is not None else ()):
            if v.op != "func":
                continue
            o = eng.base_heap.get(("attrs", v))
            t = o.items.get("_dispatcher_packet_type") if o is not None else None
            if t is None or n.startswith("_"):
                continue
            num = cval(t.args[2]) if t.op == "enum" else (cval(t) if is_const(t) else None)
            if n not in res.setdefault(num, []):
                res[num].append(n)
    return res


class Arity(Monitor):
    """dispatch_packet() with a packet whose handler takes all of its fields."""

    def __init__(self, ctx, n):
        self.ctx = ctx
        self.n = n
        self.called = []

    def raises(self, eng, st, name, base, args, kwargs):
        if name == "inspect.getcallargs":
            return []
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        if name in ("inspect.getfullargspec", "inspect.getargspec"):
            names = tuple(sym("p%d" % i) for i in range(self.n + 2))
            st, lst = eng.new(st, HObj("list", items=names), node, "argspec")
            return [("ret", st, mk("tuple", (lst, NONE, NONE, NONE)))]
        if base is not None and base.op == "sym" and base.args[0] == "handler" and name == "call":
            self.called.append((st, args, kwargs, eng.loc(st, node)))
            return [("ret", st, NONE)]
        return None


class Flow(Wire):
    """Where a handler takes the fields of its packet."""

    def __init__(self, ctx):
        self.ctx = ctx

    def note(self, st, what):
        ev = st.mon.get("events", ())
        new = []
        for e in ev + (what,):
            e = tuple(young(x) if isinstance(x, T) else x for x in e)
            if e not in new:
                new.append(e)
        return st.setmon(events=tuple(new))

    def raises(self, eng, st, name, base, args, kwargs):
        return [("Exception", False)] if name.startswith(".") and base is not None and base.op == "attr" else []

    def channel_no(self, eng, st, t):
        """The number of the channel t is."""
        if t.op == "item" and t.args[0].op == "attr":
            return t.args[1]
        if is_call(t, ".get", ".setdefault", ".pop") and t.args[2]:
            return t.args[2][0]
        o = eng.obj(st, t) if t.op == "ref" else None
        if o is not None and o.kind == "inst" and o.cls == self.channel:
            return o.items.get("number")
        return None

    def store(self, eng, st, b, name, v, node, out):
        if b is self.me:
            st = self.note(st, ("store", name, v))
            o = st.heap.get(("attrs", b)) or HObj("ext", cls="attrs", items={})
            return [st.setobj(("attrs", b), o.set_item(name, v))]
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        r = Wire.call(self, eng, st, name, base, args, kwargs, node)
        if r is not None:
            return r
        if name in eng.funcs:
            fn = eng.funcs[name]
            if fn.cls == self.channel and args and fn.node.name.startswith("on_"):
                n = self.channel_no(eng, st, args[0])
                return [("ret", self.note(st, (fn.node.name, n) + tuple(args[1:])), NONE)]
            return None
        if name.startswith(".on_") and base is not None and self.channel_no(eng, st, base) is not None:
            return [("ret", self.note(st, (name[1:], self.channel_no(eng, st, base)) + tuple(args)), NONE)]
        if base is not None and base.op == "attr" and base.args[0] is self.me:
            vals = list(args)
            if kwargs:
                vals += self.bind(eng, base.args[1], name[1:], args, kwargs)
            return [("cont", self.note(st, ("via", base.args[1], name[1:]) + tuple(vals)))]
        if name == "call" and base is not None:
            return [("cont", self.note(st, ("call", base) + tuple(args)))]
        return None

    def bind(self, eng, attr, meth, args, kwargs):
        """Keyword arguments in the order of the parameters of the method they go to."""
        kw = dict(kwargs)
        for cid in sorted(eng.classes):
            v = eng.classes[cid].attrs.get(meth)
            if v is not None and v.op == "func":
                names = [a.arg for a in eng.funcs[v.args[0]].node.args.args][1:]
                if set(kw) <= set(names) and attr.replace("_", "") in cid.split(":")[1].lower():
                    return [kw[n] for n in names[len(args):] if n in kw]
        return [kw[k] for k in kw]


def run(ctx):
    ctx.rule("the packet type enumeration and the declared fields of every packet class equal the published table "
             "(numbers, order, kinds); each server-to-agent packet type has exactly one exposed handler taking exactly its fields; "
             "the dispatcher passes the fields positionally in declared order; every handler passes each field to the role the protocol "
             "gives it; the lists handed to the codec carry number and values in published order")
    ctx.assume("the published protocol is the table in the check, taken from the pinned commit")
    eng = ctx.engine(Monitor())
    st = eng.start(packets.MODULE)
    nums = packets.numbers(eng)
    for n, v in sorted(NUMBERS.items()):
        ctx.check(nums.get(n) == v, "packet numbers", "PacketType.%s" % n, "number of %s is %s instead of %d" % (
            n, nums.get(n), v))
    for n, v in sorted(nums.items()):
        if n not in NUMBERS:
            ctx.check(v not in NUMBERS.values(), "packet numbers", "PacketType.%s" % n, "number %s is taken" % v)
    table = packets.table(eng, st)
    byno = {}
    for cid, tname, number, fields in table:
        ctx.check(number not in byno, "one class per packet type", cid, "%s also has type %s" % (byno.get(number), tname))
        byno[number] = (cid, fields)
        if number in FIELDS:
            want = FIELDS[number].split()
            have = ["/".join(f[1] or ("any",)) for f in fields]
            ctx.check(have == want, "fields of a packet", cid, "fields are %s instead of %s" % (have, want))
    for number in FIELDS:
        ctx.check(number in byno, "packet classes exist", "packet type %d" % number, "no class for packet type %d" % number)
    client = eng.find_class("WSClient", CLIENT)
    hs = handlers(eng, client)
    for number in INCOMING:
        ms = hs.get(number, [])
        ctx.check(len(ms) == 1, "incoming packets have a handler", "packet type %d" % number,
                  "packet type %d has handlers %s" % (number, ms))
        if len(ms) == 1 and number in byno:
            ctx.count("handlers")
            arity(ctx, eng, client, ms[0], byno[number][1])
            flow(ctx, client, ms[0], number)
    for number in INCOMING:
        if number in byno and FIELDS.get(number):
            order(ctx, byno[number][0], number, byno[number][1])
    for number in sorted(byno):
        layout(ctx, byno[number][0], number, byno[number][1])
    for name, args, want in SENDERS:
        sender(ctx, client, name, args, want)
    ctx.need("handlers", 12)


def arity(ctx, eng, client, name, fields):
    f = eng.class_attr(client, name)
    a = eng.funcs[f.args[0]].node.args
    names = [x.arg for x in a.args][2:]
    required = len(names) - len(a.defaults)
    n = len(fields)
    ok = (required <= n <= len(names)) or (required <= n and a.vararg is not None)
    rest = [x[0] for x in fields[len(names):]]
    ctx.check(ok, "a handler takes all fields", f.args[0], "%s takes %s but the packet has %d fields" % (name, names, n))


def order(ctx, cid, number, fields):
    """Fields arrive at the handler positionally, in order."""
    n = len(fields)
    mon = Arity(ctx, n)
    eng = ctx.engine(mon)
    st = eng.start(DISPATCH)
    out = eng.newout()
    vals = tuple(sym("f%d" % i) for i in range(n))
    disp = eng.find_class("Dispatcher", DISPATCH)
    me = sym("self", disp)
    for s, r in eng.instantiate(st, mk("class", cid), vals, (), eng.NODE, out):
        s, d = eng.new(s, HObj("dict", items={eng.class_attr(cid, "type"): sym("handler")}), eng.NODE, "handlers")
        for s2 in eng.setattr_(s, me, "_packet_handlers", d, eng.NODE, out):
            eng.invoke_method(s2, me, "dispatch_packet", [r])
    ctx.check(bool(mon.called), "the dispatcher calls the handler", "%s for %s" % (DISPATCH, cid),
              "the handler of %s is never called" % cid)
    for s, args, kwargs, loc in mon.called:
        got = [unwrap(a) for a in args[1:]]
        ctx.check(got == list(vals) and not kwargs, "fields arrive in wire order", "%s for %s" % (loc, cid.split(":")[1]),
                  "the handler gets %s %s" % (got, kwargs), s.path())


def layout(ctx, cid, number, fields):
    """The message of a packet is its number and its fields in order, text as UTF-8."""
    for form in ("position", "name"):
        for text in (False, True):
            if text and not any("bytes" in (f[1] or ()) for f in fields):
                continue
            layout_of(ctx, cid, number, fields, form, text)


def layout_of(ctx, cid, number, fields, form, text):
    mon = Wire()
    eng = ctx.engine(mon)
    mon.prepare(eng)
    vals = [sym("f%d" % i) for i in range(len(fields))]
    st = eng.start(packets.MODULE)
    for v, f in zip(vals, fields):
        if f[1]:
            kind = "str" if text and f[1][0] == "bytes" else f[1][0]
            st = st.setfact(mk("call", "isinstance", None, (v, ext(kind)), (), None), True)
    out = eng.newout()
    kw = tuple((f[0], v) for f, v in zip(fields, vals)) if form == "name" else ()
    made = eng.instantiate(st, mk("class", cid), () if kw else tuple(vals), kw, eng.NODE, out)
    for s, r in made:
        o2 = eng.invoke_method(s, r, "encode_binary")
        ctx.check(bool(o2.rets), "packets can be encoded", cid, "%s can never be encoded" % cid)
        for s2, v in o2.rets:
            got = [[unwrap(x) for x in m] for m in s2.mon.get("sent", ())]
            got = [[const_of(m[0])] + m[1:] for m in got]
            ctx.check(got == [[number] + vals], "messages are laid out as published", cid,
                      "%s made by %s is sent as %s" % (cid.split(":")[1], form, got), s2.path())


F = [sym("f%d" % i) for i in range(8)]


def has(events, *want):
    return any(len(e) >= len(want) and all(w is None or w is x or w == x for w, x in zip(want, e)) for e in events)


def client_first(events, attr, vals):
    """A call through self.<attr> with (self, *vals)."""
    for e in events:
        if e[0] == "via" and e[1] == attr:
            got = list(e[3:])
            if got and got[0] is Flow.me:
                got = got[1:]
            if got == list(vals):
                return True
    return False


def expect(number, s, ev, sent, eng):
    """Is what the handler did with its fields what the protocol says?"""
    closed = eng.decide(s, mk("attr", Flow.me, "_closed"))
    if number == 9:
        if closed is True:
            return True
        return has(ev, "store", "identity", F[0]) and has(ev, "via", "manager", None, F[0])
    if number == 7:
        return any(len(m) == 2 and const_of(m[0]) == 8 and (
            unwrap(m[1]) is F[0] or (m[1].op == "slice" and m[1].args[0] is F[0] and m[1].args[1] in (
                NONE, const(0)))) for m in sent)
    if number == 6:
        return has(ev, "on_data", F[0], F[1])
    if number == 21:
        return has(ev, "on_control", F[0], F[1])
    if number == 19:
        here = [v for k, v in s.facts.items() if k.op == "cmp" and k.args[0] == "in" and k.args[1] is F[0]]
        if any(e[:3] in (("via", "channels", "get"), ("via", "channels", "pop")) and e[3] is F[0] for e in ev):
            here += [False for k, v in s.facts.items() if k.op == "cmp" and k.args[0] in ("is", "eq") and NONE in k.args[1:] and v is True]
        return has(ev, "on_close", F[0]) or (False in here and not has(ev, "on_close"))
    if number == 17:
        return has(ev, "store", "user", F[0])
    if number == 100:
        calls = [e for e in ev if e[0] == "call"]
        return all(len(e) == 3 and e[2] is F[1] and any(x is F[0] for x in subterms(e[1])) for e in calls)
    if number == 16:
        return has(ev, "via", "manager", None, F[0], F[1])
    if number == 24:
        return client_first(ev, "remote_directory", F[:2])
    if number == 26:
        return client_first(ev, "remote_directory", F[:1])
    if number == 27:
        return client_first(ev, "remote_directory", F[:3])
    if number == 31:
        return client_first(ev, "remote_directory", F[:6])
    if number == 29:
        return has(ev, "via", "remote_directory")
    return True


def flow(ctx, client, name, number):
    mon = Flow(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    mon.channel = eng.find_class("Channel", CLIENT)
    Flow.me = sym("self", client)
    n = len(FIELDS[number].split())
    kinds = {"bytes": "bytes", "int": "int", "dict": "dict", "list": "list"}
    args = [sym("type")] + [F[i] for i in range(n)]
    st = eng.start(CLIENT)
    for i, k in enumerate(FIELDS[number].split()):
        st = st.setfact(mk("call", "isinstance", None, (F[i], ext(k)), (), None), True)
    out = eng.invoke_method(st, Flow.me, name, args)
    where = "%s.%s" % (client, name)
    calls = 0
    for s, v in out.rets:
        ev = s.mon.get("events", ())
        calls += any(e[0] == "call" for e in ev)
        ctx.check(expect(number, s, ev, s.mon.get("sent", ()), eng), "fields go where the protocol says", where,
                  "handling packet type %d ends without its proper effect: %s %s" % (
                      number, [tuple(str(x)[:60] for x in e) for e in ev], s.mon.get("sent", ())), s.path())
    ctx.check(bool(out.rets), "a handler can succeed", where, "the handler never completes")
    if number == 100:
        ctx.check(calls > 0, "fields go where the protocol says", where, "a response is passed to no callback")


# Methods of the client that send: (name, arguments, wire form per path)
A, B = sym("a"), sym("b")
SENDERS = [
    ("on_ready", (), lambda me, s, eng: [1] if eng.decide(s, mk("attr", me, "identity")) is False or eng.decide(
        s, eng.mkeq(mk("attr", me, "identity"), NONE)) is True
     else [2, mk("attr", me, "identity")]),
    ("close_channel", (A,), lambda me, s, eng: [11, A]),
    ("channel_write", (A, B), lambda me, s, eng: [5, A, B]),
    ("channel_control_write", (A, B), lambda me, s, eng: [22, A, call("json.dumps", None, (B,))]),
]


def sender(ctx, client, name, args, want):
    mon = Wire()
    eng = ctx.engine(mon)
    mon.prepare(eng)
    me = sym("self", client)
    out = eng.invoke_method(eng.start(CLIENT), me, name, args)
    where = "%s.%s" % (client, name)
    ctx.check(bool(out.rets), "a message can be sent", where, "the message is never sent")
    for s, v in out.rets:
        sent = s.mon.get("sent", ())
        w = [const(x) if isinstance(x, int) else x for x in want(me, s, eng)]
        got = [[unwrap(x) for x in m] for m in sent]
        got = [[const(cval(x.args[2])) if x.op == "enum" else x for x in m] for m in got]
        ctx.check(got == [w], "messages are laid out as published", where, "sends %s instead of %s" % (got, w), s.path())
