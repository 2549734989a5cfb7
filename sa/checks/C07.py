"""Identity, metadata and tags are resent until the API acknowledges them."""

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE
from ..api import Api, client, CLIENT
from ..program import AnalysisError
from ..world import is_log

AUTH = "device.check_auth"


class Report(Api):

    def __init__(self, ctx):
        Api.__init__(self, ctx)
        self.values = {}      # function -> (value, may raise)

    def raises(self, eng, st, name, base, args, kwargs):
        if is_log(name, base) or name.startswith("time.") or name.startswith("random."):
            return []
        if name == ".decode" and base is not None and base.op == "sym":
            return []
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        if name in self.values:
            v, may = self.values[name]
            r = [("ret", st, v)]
            if may:
                r.append(self.exc(eng, st.setmon(unavailable=1), node))
            return r
        return Api.call(self, eng, st, name, base, args, kwargs, node)


def carried(calls):
    return [c for c in calls if c[1] != AUTH]


def first(s):
    return s.setmon(sent=None, acked=None, answered=None, calls=None, unavailable=None)


def ends(out):
    return list(out.rets) + list(out.raises)


def twice(ctx, eng, mon, s0, what, entry, act, same, other, where, methods):
    """Report, then report again from every outcome."""
    same(True)
    outcomes = {"sent": 0, "acked": 0, "failed": 0}
    seen = set()
    for s, _ in ends(act(first(s0))):
        sent = s.mon.get("sent", ())
        if s.mon.get("unavailable") and not sent:
            acked = None
        else:
            ctx.check(bool(sent), "new values are sent", where, "%s is not sent" % what, s.path())
            if not sent:
                continue
            ids = [c[0] for c in carried(sent[-1])]
            got = {c[1] for c in carried(sent[-1])}
            full = methods <= got
            if not full and not s.mon.get("unavailable"):
                ctx.bad("new values are sent", where, "the batch carries %s only" % sorted(got), s.path())
            acked = full and set(ids) <= set(s.mon.get("acked", ()))
            outcomes["acked" if acked else "failed"] += 1
        outcomes["sent"] += 1
        s1 = first(s)
        s1 = s1.copy()
        s1.trace = None
        k = (s1.key(), bool(acked))
        if k in seen:
            continue
        seen.add(k)
        same(False)
        for s2, _ in ends(act(s1)):
            again = s2.mon.get("sent", ())
            ctx.count("second reports of " + what)
            if acked:
                ctx.check(not again, "acknowledged values are not sent again", where,
                          "%s is sent again though it was acknowledged" % what, s2.path() or s.path())
            else:
                ok = bool(again) and methods <= {c[1] for c in carried(again[-1])}
                ctx.check(ok, "unacknowledged values are sent again", where,
                          "%s is not sent again though it was not acknowledged (first report: %s)" % (
                              what, describe(s)), (s.path() or []) + (s2.path() or []))
        if acked and other is not None:
            other()
            for s2, _ in ends(act(s1)):
                ctx.check(bool(s2.mon.get("sent", ())), "changed values are sent", where,
                          "%s changed and is not sent" % what, s2.path())
        same(True)
    ctx.check(outcomes["acked"] > 0, "acknowledged values are recognised", where, "%s is never acknowledged" % what)
    ctx.count("outcomes of " + what, outcomes["sent"])


def describe(s):
    if not s.mon.get("sent"):
        return "nothing sent"
    a = s.mon.get("acked", ())
    return "acknowledged: %s" % (", ".join(a) if a else "nothing")


def run(ctx):
    ctx.rule("tags, metadata and a new identity are each reported twice, the second time from every outcome of the first (the batch "
             "failing, each call's result an error or missing): sent again iff some carrying call was not acknowledged by "
             "Batch.get_result; a changed value after an acknowledged one is sent")
    ctx.assume("Batch.get_result returns only for an acknowledged call (C10); the tags, metadata and identity are the same in "
               "both reports unless said otherwise; an identity is valid text; the periodic poll calls both reports (C12)")
    mon = Report(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    clients = client(eng)[:1]
    tags = eng.find_func("get_tag_list", "dataplicity.tags")
    meta = eng.find_func("get_meta", "dataplicity.device_meta")
    cid = eng.find_class("Client", CLIENT)
    for s0, me in clients:
        t1, t2 = mk("attr", sym("tags"), "one"), mk("attr", sym("tags"), "two")
        for t in (t1, t2):
            s0 = s0.setfact(eng.mkeq(t, NONE), False)
        s0 = s0.setfact(eng.mkeq(t1, t2), False).setfact(eng.mkeq(t2, t1), False)

        def same(may, t1=t1):
            mon.values[tags] = (t1, may)

        def other(t2=t2):
            mon.values[tags] = (t2, False)
        twice(ctx, eng, mon, s0, "tags", None, lambda s: eng.invoke_method(s, me, "tag_poll"), same, other,
              cid + ".tag_poll", {"device.set_machine_defined_tags"})

        def same(may):
            mon.values[meta] = (sym("meta", "dict"), may)
        twice(ctx, eng, mon, s0, "metadata", None, lambda s: eng.invoke_method(s, me, "sync"), same, None, cid + ".sync",
              {"device.set_agent_version", "device.set_machine_revision", "device.set_model_name",
               "device.set_os_version", "device.set_uname", "device.set_ip_addresses"})

        i1, i2 = sym("identity1", "bytes"), sym("identity2", "bytes")
        s1 = s0
        for i in (i1, i2):
            s1 = s1.setfact(i, True).setfact(eng.mkeq(i, NONE), False)
        s1 = s1.setfact(eng.mkeq(i1, i2), False).setfact(eng.mkeq(i2, i1), False)
        for token in [sym("Client.auth_token")] + [v for _, v in eng.getattr_(s1, me, "auth_token", eng.NODE, eng.newout())]:
            if not is_const(token):
                s1 = s1.setfact(token, True).setfact(eng.mkeq(token, NONE), False)
        man = attribute(eng, s1, me, "m2m")
        ws = attribute(eng, s1, man, "m2m_client")
        cell = [i1]

        def act(s):
            ev = sym("event:poll")
            s = eng.setattr_(s, ev, "name", const("poll"), eng.NODE, eng.newout())[0]
            s = eng.setattr_(s, ws, "identity", cell[0], eng.NODE, eng.newout())[0]
            return eng.invoke_method(s, ws, "on_event", (ev,))

        def same(may):
            cell[0] = i1

        def other():
            cell[0] = i2
        twice(ctx, eng, mon, s1, "identity", None, act, same, other, cid + ".set_m2m_identity", {"m2m.associate"})
    for w in ("tags", "metadata", "identity"):
        ctx.need("outcomes of " + w, 2)
        ctx.need("second reports of " + w, 2)


def attribute(eng, s, me, name):
    for _, v in eng.getattr_(s, me, name, eng.NODE, eng.newout()):
        if v.op == "ref":
            return v
    raise AnalysisError("a client has no %s" % name)
