"""Each instruction starts exactly the service it names, from the right pool."""

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE
from ..instr import Channels, world, instruct, FIELDS, pools, innermost, channel_number, is_field
from ..state import HObj
from ..world import const_of, is_log

SERVICES = {
    "RemoteProcess": "dataplicity.m2m.remoteprocess", "EchoService": "dataplicity.m2m.echoservice",
    "Connection": "dataplicity.portforward", "FileService": "dataplicity.m2m.fileservice",
    "CommandService": "dataplicity.m2m.commandservice",
}
REBOOT = ("/usr/bin/sudo", "/sbin/reboot")

# action: what starts, from which pool, on the channel of which field, with which other fields
EXPECT = {
    "sync": ("sync", None, None, ()),
    "open-terminal": ("RemoteProcess", "terminals", "port", ("size",)),
    "open-echo": ("EchoService", None, "port", ()),
    "open-portforward": ("Connection", "services", "route3", ()),
    "open-portredirect": ("Connection", "services", "m2m_port", ("device_port",)),
    "reboot-device": ("reboot", None, None, ()),
    "read-file": ("FileService", "services", "port", ("path",)),
    "run-command": ("CommandService", "services", "port", ("command",)),
    "scan-directory": ("perform_scan", None, None, ()),
    "restart": None, "exit": None, "": None, "SYNC": None, "upgrade": None, "shutdown-device": None, "run-commands": None,
}


class Effects(Channels):
    write_fails = False

    def __init__(self, ctx):
        self.ctx = ctx

    def prepare(self, eng):
        Channels.prepare(self, eng)
        self.services = {eng.find_class(n, m): n for n, m in SERVICES.items()}
        self.limiter = eng.find_class("Limiter", "dataplicity.limiter")

    def did(self, st, *what):
        return st.setmon(did=st.mon.get("did", ()) + (what,))

    def event(self, eng, st, what, ch, args, node):
        if what in self.stubs.values():
            return self.did(st, what)
        return st

    def raises(self, eng, st, name, base, args, kwargs):
        if is_log(name, base):
            return []
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        if name in self.services:
            return [("cont", self.did(st, self.services[name], tuple(args) + tuple(v for k, v in kwargs)))]
        if name in eng.funcs and eng.funcs[name].cls == self.limiter and args and args[0].op == "ref":
            o = eng.obj(st, args[0])
            if o is not None and o.cls == self.limiter and eng.funcs[name].node.name != "__repr__":
                return [("cont", st.setmon(slots=st.mon.get("slots", frozenset()) | {args[0]}))]
        if name.startswith(("subprocess.", "os.system", "os.popen", "os.spawn", "os.exec", "os.kill", "os.remove", "os.unlink",
                            "os.rename", "shutil.", "os.fork", "pty.", "os._exit", "sys.exit", "os.abort")) and not (
                name.split(".")[-1] in ("PIPE", "STDOUT", "WNOHANG")):
            a = args[0] if args else NONE
            items = eng.known_items(st, a) if a.op == "ref" else a.args[0] if a.op == "tuple" else (a,)
            vals = tuple(const_of(x) if is_const(x) else str(x) for x in items or (a,))
            shell = dict(kwargs).get("shell")
            what = "reboot" if vals == REBOOT and name in ("subprocess.Popen",) and (shell is None or const_of(shell) is False) \
                else "%s%s" % (name, vals)
            st = self.did(st, what)
            return [("ret", st, call(name, None, tuple(args), tuple(kwargs), eng.uid(st, node))), ("raise", st, (
                "OSError", True, frozenset(), mk("exc", "OSError", True, eng.site(st, node), None)))]
        if name in ("open", ".set", ".clear"):
            return [("cont", self.did(st, name))]
        r = Channels.call(self, eng, st, name, base, args, kwargs, node)
        return r


def run(ctx):
    ctx.rule("the agent is constructed and given every instruction (fields unknown), alone and after every other instruction: the "
             "services constructed, threads started, processes run, syncs and scans on each path are at most the one the action "
             "names, and on some path exactly it; its channel, path, command, port and size are those of this instruction; "
             "its slot is taken from its own pool")
    mon = Effects(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    for st, client, manager in world(eng):
        ps = pools(eng, st, manager)
        ctx.check(len(ps) == 2 and len(set(ps.values())) == 2, "terminals and services have pools of their own", "M2MManager",
                  "the pools are %s" % sorted(ps))
        if len(set(ps.values())) != 2:
            continue
        first = []
        for action in sorted(EXPECT):
            done = one(ctx, mon, eng, st, manager, ps, action, "", action)
            if done is not None:
                first.append((action, done))
        for action, odd in UNKNOWN:
            one(ctx, mon, eng, st, manager, ps, action, "", "%s with an unknown %s" % (action, sorted(odd)[0]), odd)
        for before, s in first:
            for action in sorted(EXPECT):
                one(ctx, mon, eng, s, manager, ps, action, "2", "%s after %s" % (action, before))
    ctx.need("instructions", 100)
    ctx.need("paths", 300)


def value(name, suffix):
    n = "field:" + name + suffix
    return sym(n) if name in ("port", "m2m_port", "device_port", "size") else sym(n, "bytes")


# names of nothing: no effect
UNKNOWN = [("open-terminal", {"name": const(b"nosuch")}), ("open-terminal", {"name": const(b"")}),
           ("open-portforward", {"service": const(b"nosuch")}), ("open-portforward", {"service": const(b"")})]


def one(ctx, mon, eng, st, manager, ps, action, suffix, what, odd=None):
    """Give one instruction; the state after its first complete path."""
    st = st.setmon(did=(), slots=frozenset(), started=(), failed=(), events=())
    vals = {}
    for f in FIELDS.get(action, ()):
        vals[f] = value(f, suffix)
    if action == "open-terminal":
        vals["name"] = const(b"shell")
    if action == "open-portforward":
        vals["service"] = const(b"alt")
        st, vals["route"] = eng.new(st, HObj("list", items=tuple(sym("field:route%d%s" % (i, suffix)) for i in range(4))), eng.NODE,
                                    "route" + suffix)
    vals.update(odd or {})
    out = instruct(eng, st, manager, action, vals)
    ctx.count("instructions")
    e = EXPECT[action] if odd is None else None
    complete = None
    ends = list(out.rets) + [(s, None) for s, x in out.raises]
    ctx.check(not out.exits, "an instruction does not end the process", what, "the process may end", key="exit %s" % action)
    for s, v in ends:
        ctx.count("paths")
        did = s.mon.get("did", ())
        names = [d[0] for d in did]
        want = [e[0]] if e else []
        ctx.check(names in (want, []), "an instruction has its own effect only", what, "the effects are %s" % (names,), s.path(),
                  key="effects %s" % action)
        if names != want or not e:
            ctx.check(not s.mon.get("started") and not (s.mon.get("slots") and not e), "an instruction has its own effect only", what,
                      "a thread is started without the service", s.path(), key="threads %s" % action)
            continue
        good = parameters(ctx, eng, s, ps, action, suffix, what, did[0])
        ctx.check(s.mon.get("slots", frozenset()) <= ({ps[e[1]]} if e[1] else frozenset()), "slots come from the right pool", what,
                  "another pool is used", s.path(), key="pool %s" % action)
        threads = len(s.mon.get("started", ()))
        ctx.check(threads <= (1 if e[1] else 0), "one thread per service", what, "%d threads are started" % threads, s.path(),
                  key="threads %s" % action)
        if good and v is not None and threads == (1 if e[1] else 0) and not s.mon.get("failed"):
            if complete is None:
                complete = s
            if e[1]:
                ctx.check(s.mon.get("slots") == frozenset([ps[e[1]]]), "a service takes a slot", what,
                          "no slot of the %s pool is taken" % e[1], s.path(), key="slot %s" % action)
    if e:
        ctx.check(complete is not None, "an instruction has the effect it names", what, "no path has the effect",
                  key="no effect %s" % action)
    return complete


def same(s, t, name):
    """t is the field of this name, or is known to equal it."""
    if t.op == "sym" and t.args[0] == name:
        return True
    for k, v in s.facts.items():
        if v is True and k.op == "cmp" and k.args[0] == "eq":
            a, b = innermost(k.args[1]), innermost(k.args[2])
            for x, y in ((a, b), (b, a)):
                if x is t and y.op == "sym" and y.args[0] == name:
                    return True
    return False


def utf8(t):
    vals = list(t.args[2][:1]) + [v for n, v in t.args[3] if n == "encoding"]
    return all(is_const(v) and str(cval(v)).lower().replace("_", "-") in ("utf-8", "utf8") for v in vals)


def parameters(ctx, eng, s, ps, action, suffix, what, did):
    name, pool, chan, fields = EXPECT[action]
    if len(did) < 2:
        return True
    ok = True
    flat = []
    for v in did[1]:
        flat.append(v)
        if v.op == "tuple":
            flat.extend(v.args[0])
        elif v.op == "ref" and eng.known_items(s, v):
            flat.extend(eng.known_items(s, v))
    inner = [innermost(v) for v in flat]
    got = [v for v in did[1] if any(v is p for p in ps.values())]
    if pool:
        ok &= ctx.check(got == [ps[pool]], "slots come from the right pool", what, "%s is not given the %s pool" % (name, pool),
                        s.path(), key="pool %s" % action) is not False
    n = [channel_number(eng, s, v) for v in did[1]]
    n = [x for x in n if x is not None]
    ctx.check(len(n) == 1 and same(s, n[0], "field:" + chan + suffix), "a service uses the instruction's channel",
              what, "the channel's number is %s" % n, s.path(), key="channel %s" % action)
    allowed = {chan}
    for f in fields:
        if f == "size":
            z = mk("x", sym("field:size" + suffix))
            none = eng.decide(s, eng.mkeq(sym("field:size" + suffix), NONE))
            have = any(x.op == "sym" and x.args[0] == "field:size" + suffix for x in inner)
            ctx.check(have or none is True, "a service gets the instruction's parameters", what, "the size given is not used", s.path(),
                      key="size %s" % action)
            if none is True:
                size = [eng.known_items(s, v) for v in did[1] if v.op == "ref" and eng.known_items(s, v)]
                ctx.check(any([const_of(i) for i in x] == [80, 24] for x in size), "a service gets the instruction's parameters", what,
                          "the default size is not 80 by 24", s.path(), key="default size")
        else:
            ctx.check(any(x.op == "sym" and x.args[0] == "field:" + f + suffix for x in inner), "a service gets the instruction's parameters",
                      what, "%s is not given the instruction's %s" % (name, f), s.path(), key="%s %s" % (f, action))
        allowed.add(f)
    for x in flat:
        while is_call(x, ".decode") and x.args[1] is not None:
            ctx.check(utf8(x), "text from the server is UTF-8", what, "%s is decoded as %s" % (x.args[1], [
                str(z) for z in x.args[2]]), s.path(), key="decoding %s" % action)
            x = x.args[1]
        for y in subterms(x):
            if y.op == "sym" and str(y.args[0]).startswith("field:"):
                ctx.check(y.args[0] in ["field:" + a + suffix for a in allowed], "a service gets the instruction's parameters only", what,
                          "%s is used" % y, s.path(), key="other field %s" % action)
    if name == "RemoteProcess":
        ctx.check(any(const_of(v) == "bash -i" for v in did[1]), "a terminal runs its configured command", what,
                  "the shell terminal does not run its command", s.path(), key="terminal command")
    return bool(ok)
