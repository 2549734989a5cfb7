"""Every report carries the value it names."""

from ..terms import mk, sym, call, const, is_const, cval, is_call, subterms, NONE
from ..api import Api, client, CLIENT
from ..rational import equal
from ..wire import utf8
from ..state import HObj
from ..world import is_log
from .C07 import attribute

TECHNIQUE = "provenance of the arguments of every API call (path-sensitive abstract interpretation, polynomial normal form for sizes)"

META = {"device.set_agent_version": ("agent_version", "agent_version"),
        "device.set_machine_revision": ("revision_code", "machine_revision"),
        "device.set_model_name": ("model_name", "model_name"),
        "device.set_os_version": ("os_version", "os_version"),
        "device.set_uname": ("uname", "uname"),
        "device.set_ip_addresses": ("ip_list", "ip_list")}
OTHERS = {"device.set_disk_space": ("disk_capacity", "disk_used"), "device.set_machine_defined_tags": ("tag_list",),
          "m2m.associate": ("identity",)}
COPIES = ("list", "tuple", "dict", "str", "bytes", "int", "copy.copy", "copy.deepcopy")


def plain(t):
    """The value itself, where t is a copy of it."""
    while t.op == "call":
        if t.args[0] in COPIES and len(t.args[2]) == 1 and not t.args[3]:
            t = t.args[2][0]
        elif t.args[0] == ".copy" and t.args[1] is not None:
            t = t.args[1]
        else:
            break
    return t


class Values(Api):

    def __init__(self, ctx):
        Api.__init__(self, ctx)
        self.values = {}
        self.identity = None

    def raises(self, eng, st, name, base, args, kwargs):
        if is_log(name, base) or name.startswith("time.") or name.startswith("random."):
            return []
        if name == ".decode" and base is self.identity:
            return []
        if name == "os.statvfs":
            return []
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        if name == self.meta:
            st, r = eng.new(st, HObj("dict", items={const(k): sym("meta:" + k) for _, k in META.values()}), node, "meta")
            return [("ret", st, r)]
        if name in self.values:
            return [("ret", st, self.values[name])]
        if name in ("os.statvfs", "shutil.disk_usage", "os.fstatvfs"):
            return [("ret", st, call(name, None, tuple(args), ()))]
        return Api.call(self, eng, st, name, base, args, kwargs, node)

    def sending(self, eng, st, calls, node):
        r = self.ctx
        for cid, meth, params in calls or ():
            want = (META.get(meth) or (None,))[:1] if meth in META else OTHERS.get(meth)
            if want is None:
                continue
            p = dict(params)
            r.count("reports by " + meth)
            if not r.check(set(p) == set(want), "a report names its value", meth, "%s is called with %s" % (meth, sorted(p)),
                           st.path(), key=meth):
                continue
            for k in want:
                good = self.good(eng, st, meth, k, p[k])
                r.check(good, "a report carries the value it names", meth, "%s of %s is %s" % (k, meth, p[k]),
                        st.path(), key="%s %s" % (meth, k))
        return st

    def good(self, eng, st, meth, k, v):
        v = plain(v)
        if meth in META:
            return v is sym("meta:" + META[meth][1])
        if meth == "device.set_machine_defined_tags":
            return v is sym("tags", "list")
        if meth == "m2m.associate":
            if is_call(v, ".decode") and v.args[1] is self.identity and utf8(v):
                return True
            return v is const("") and any(val is False and is_call(f, ".decode") and f.args[1] is self.identity
                                          for f, val in st.facts.items())
        root = const("/")
        f = call("os.statvfs", None, (root,), ())
        a = lambda n: mk("attr", f, n)
        total = mk("bin", "*", a("f_blocks"), a("f_frsize"))
        free = mk("bin", "*", a("f_bfree"), a("f_frsize"))
        if v.op == "attr" and is_call(v.args[0], "shutil.disk_usage"):
            return v.args[0].args[2][:1] == (root,) and v.args[1] == {"disk_capacity": "total", "disk_used": "used"}[k]
        return equal(v, total if k == "disk_capacity" else mk("bin", "-", total, free))


def run(ctx):
    ctx.rule("a poll (disk usage, tags and metadata due) and the arrival of an identity are followed with unknown measured values; at "
             "each Batch.send, each reporting call has exactly its parameters and each of them is the value measured for it: "
             "metadata under its own key, all tags, the identity decoded as UTF-8, sizes equal as polynomials of the figures of "
             "statvfs('/')")
    ctx.assume("what is collected is right (C35)")
    mon = Values(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    mon.values[eng.find_func("get_tag_list", "dataplicity.tags")] = sym("tags", "list")
    mon.meta = eng.find_func("get_meta", "dataplicity.device_meta")
    mon.identity = i = sym("identity", "bytes")
    for s, me in client(eng)[:1]:
        eng.invoke_method(s, me, "poll")
        s = s.setfact(i, True).setfact(eng.mkeq(i, NONE), False).setfact(eng.mkeq(sym("Client.auth_token"), NONE), False)
        ws = attribute(eng, s, attribute(eng, s, me, "m2m"), "m2m_client")
        ev = sym("event:poll")
        s = eng.setattr_(s, ev, "name", const("poll"), eng.NODE, eng.newout())[0]
        s = eng.setattr_(s, ws, "identity", i, eng.NODE, eng.newout())[0]
        eng.invoke_method(s, ws, "on_event", (ev,))
    for m in list(META) + list(OTHERS):
        ctx.check(ctx.counts.get("reports by " + m, 0) > 0, "every value is reported", m, "%s is never called" % m)
