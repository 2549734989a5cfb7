"""A service that cannot start says so and closes its channel."""

from ..terms import T, const, is_const, cval, subterms, NONE
from ..instr import world, instruct, FIELDS, channel_number, is_field
from ..program import AnalysisError
from .C18 import Slots, POOL

PORT = {"open-terminal": ("port",), "read-file": ("port",), "run-command": ("port",), "open-portforward": ("route",),
        "open-portredirect": ("m2m_port",)}


class Silent(object):

    def check(self, cond, *a, **k):
        return cond

    def bad(self, *a, **k):
        pass

    count = bad


class Starts(Slots):
    """mon.said = ((channel, sequence of w (written), e (nothing written), t (not bytes), c (closed)), ...), mon.refused."""

    write_fails = False

    def __init__(self):
        Slots.__init__(self, Silent())

    def raised(self, eng, st, qual, args, exc, node):
        if str(exc[0]).endswith(":LimitReached"):
            return st.setmon(refused=1)
        return st

    def event(self, eng, st, what, ch, args, node):
        if what == "set_callbacks":
            return st.setmon(callbacks=tuple(c for c in st.mon.get("callbacks", ()) if c[0] is not ch) + ((ch, tuple(args)),))
        if what in ("sync", "perform_scan"):
            return st
        k = "c" if what == "close" else "w"
        if what == "write":
            a = args[0]
            if a is None or is_const(a) and not cval(a):
                k = "e"
            elif (eng.typeof(st, a) or "bytes") != "bytes":
                k = "t"
        said = dict(st.mon.get("said", ()))
        s = said.get(ch, "")
        if not s.endswith(k):
            said[ch] = s + k
        return st.setmon(said=tuple(sorted(said.items(), key=repr)))


def run(ctx):
    ctx.rule("every instruction that starts a service is followed at any count of services in use, the start of a thread failing or "
             "not: a path on which the limit was reached or the thread failed to start returns normally, having written something "
             "to the channel asked for and then asked for its closing (once, nothing after); a path on which the service started "
             "and nothing failed leaves the channel alone")
    ctx.assume("writing to the channel itself works; a thread that can not be started raises RuntimeError")
    mon = Starts()
    eng = ctx.engine(mon)
    mon.prepare(eng)
    for st, client, manager in world(eng):
        for action in sorted(POOL):
            st0 = st.setmon(phase="instruction", slots=(), changes=0, said=(), refused=0)
            ends = look(ctx, eng, st0, manager, action, "the instruction %s" % action)
            # once more, after one that failed
            for s, bad in ends:
                if bad:
                    s = s.setmon(started=(), failed=(), slots=(), changes=0, said=(), refused=0)
                    look(ctx, eng, s, manager, action, "a later instruction %s" % action)
                    break
    ctx.need("failures to start", 10)
    ctx.need("kinds failing", 10)
    ctx.need("kinds starting", 5)


def look(ctx, eng, st, manager, action, where):
    out = instruct(eng, st, manager, action)
    if out.exits:
        raise AnalysisError("%s ends the process" % where)
    ends = [(s, None) for s, _ in out.rets] + list(out.raises)
    kinds = set()
    res = []
    for s, x in ends:
        failed = bool(s.mon.get("failed"))
        refused = bool(s.mon.get("refused"))
        said = dict(s.mon.get("said", ()))
        if failed or refused:
            why = "the thread fails to start" if failed else "the limit is reached"
            kinds.add(why)
            ctx.count("failures to start")
            k = "%s %s" % (action, why)
            ctx.check(x is None, "a failure to start goes no further", where,
                      "when %s, %s leaves the instruction" % (why, x[0] if x else None), s.path(), key=k + " escapes")
            if x is not None:
                continue
            mine = [(ch, q) for ch, q in said.items() if is_asked(eng, s, ch, action)]
            q = mine[0][1] if mine else ""
            ctx.check("w" in q, "a failure to start is told to the remote end", where,
                      "when %s, %s is written to the channel" % (
                          why, "something that is not bytes" if "t" in q else "nothing"), s.path(), key=k + " message")
            ctx.check("c" in q, "the channel of a service that can not start is closed", where,
                      "when %s, the channel is left open" % why, s.path(), key=k + " close")
            if "w" in q and "c" in q:
                ctx.check(q.index("w") < q.index("c") and q.endswith("c"), "the message precedes the close", where,
                          "when %s, the channel is closed before the message" % why, s.path(), key=k + " order")
            res.append((s, True))
        elif s.mon.get("started"):
            kinds.add("starts")
            ctx.check(not said, "a started service is not reported as failed", where,
                      "the service started, yet its channel is written to or closed", s.path(), key=action + " started")
            res.append((s, False))
    for why in ("the limit is reached", "the thread fails to start"):
        ctx.count("kinds failing", 1 if why in kinds else 0)
    ctx.count("kinds starting", 1 if "starts" in kinds else 0)
    return res


def is_asked(eng, st, ch, action):
    n = channel_number(eng, st, ch)
    return n is None or is_field(n, *PORT[action])
