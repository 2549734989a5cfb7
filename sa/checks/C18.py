"""Service slots are taken once, released once and never exceed the limit."""

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE
from ..instr import Channels, world, instruct, run_thread, LIMITER, FIELDS, ODD
from ..world import make, stored_names, is_log, is_pure
from ..linear import poly, sub, positive, entails
from ..program import AnalysisError
from .. import models

POOL = {"open-terminal": "terminals", "read-file": "services", "run-command": "services", "open-portforward": "services",
        "open-portredirect": "services"}


class Slots(Channels):
    """mon.slots = ((limiter, slots taken on this path), ...)."""

    write_fails = True

    def __init__(self, ctx):
        self.ctx = ctx

    def prepare(self, eng):
        Channels.prepare(self, eng)
        self.limiter = eng.find_class("Limiter", LIMITER)

    # the count
    def is_count(self, eng, st, b, name):
        if b.op != "ref":
            return False
        o = eng.obj(st, b)
        return o is not None and o.cls == self.limiter and name in stored_names(eng) and name in o.items

    def lock_of(self, eng, st, lock):
        """The limiters this lock belongs to."""
        res = []
        for a, o in list(st.heap.items()) + [(a, o) for a, o in eng.base_heap.items() if a not in st.heap]:
            if o.kind == "inst" and o.cls == self.limiter and any(v is lock for v in o.items.values()):
                res.append((a, o))
        return res

    def locked(self, eng, st, b):
        return any(v in st.held for v in eng.obj(st, b).items.values())

    def taken(self, st, b):
        return dict(st.mon.get("slots", ())).get(b, 0)

    def unknown(self, eng, st, b, name, node):
        t = call("count now", b, (const(name),), (), eng.uid(st, node))
        st = eng.purge(st, t)
        n = self.taken(st, b)
        # somebody else can not give back the slots taken here
        st = st.setfact(mk("cmp", "le", const(max(n, 0)), t), True)
        return st, t

    def acquire(self, eng, st, lock, node):
        if lock in st.held:
            return st
        for a, o in self.lock_of(eng, st, lock):
            for k in o.items:
                if k in stored_names(eng):
                    st, t = self.unknown(eng, st, mk("ref", a), k, node)
                    o = st.heap.get(a, o)
                    st = st.setobj(a, o.set_item(k, t))
        return st

    def getattr(self, eng, st, b, name, node):
        if self.is_count(eng, st, b, name) and not self.locked(eng, st, b):
            st, t = self.unknown(eng, st, b, name, node)
            return [(st, t)]
        return None

    def store(self, eng, st, b, name, v, node, out):
        if not self.is_count(eng, st, b, name):
            return None
        where = eng.loc(st, node)
        self.ctx.count("changes of a count")
        cur = eng.obj(st, b).items[name]
        d = sub(poly(v), poly(cur))
        n = d.get(None, 0) if set(d) <= {None} else None
        self.ctx.check(self.locked(eng, st, b), "the count is changed under its lock only", where,
                       "the count is stored without the lock", st.path(), key="locked " + name)
        if not self.ctx.check(n in (1, -1) and type(n) is int, "a slot is taken or given back at a time", where,
                              "the count becomes %s, it was %s" % (v, cur), st.path(), key="step " + name):
            return None
        lim = self.limits(eng, st, b)
        if n > 0:
            good = any(entails(p, q) for q in [positive(mk("cmp", "le", v, x), True) for x in lim]
                       for p in self.known(st))
            self.ctx.check(good, "the count never exceeds the limit", where, "it may be raised above the limit", st.path(),
                           key="limit")
        else:
            q = positive(mk("cmp", "le", const(0), v), True)
            self.ctx.check(any(entails(p, q) for p in self.known(st)), "the count never falls below zero", where,
                           "it may fall below zero", st.path(), key="zero")
        s = dict(st.mon.get("slots", ()))
        s[b] = s.get(b, 0) + n
        st = st.setmon(slots=tuple(sorted(s.items(), key=lambda x: repr(x[0]))), changes=st.mon.get("changes", 0) + 1)
        return [st.setobj(b.args[0], eng.obj(st, b).set_item(name, v))]

    def limits(self, eng, st, b):
        return [v for k, v in eng.obj(st, b).items.items() if k not in stored_names(eng) and (
            v.op != "ref" and not (is_const(v) and type(cval(v)) is not int))]

    def known(self, st):
        for f, v in st.facts.items():
            if v in (True, False):
                p = positive(f, v)
                if p is not None:
                    # these are whole numbers
                    yield (sub(p[0], {None: 1}), False) if p[1] else p

    def decide(self, eng, st, t):
        if t.op == "cmp" and any(x.op == "call" and x.args[0] == "count now" for x in t.atoms):
            q, n = positive(t, True), positive(t, False)
            if q is not None:
                for p in self.known(st):
                    if entails(p, q):
                        return True
                    if entails(p, n):
                        return False
        return None

    def event(self, eng, st, what, ch, args, node):
        if what == "set_callbacks":
            e = (what, ch) + tuple(args)
            if e not in st.mon.get("events", ()):
                return st.setmon(events=st.mon.get("events", ()) + (e,))
        return st

    # threads
    def thread_start(self, eng, st, b, node):
        if st.mon.get("phase") == "instruction":
            where = eng.loc(st, node)
            k = len(st.mon.get("started", ())) + 1
            have = sum(n for _, n in st.mon.get("slots", ()))
            self.ctx.check(have >= k, "a service that starts holds a slot", where,
                           "%d service(s) start with %d slot(s)" % (k, have), st.path(), key="started with a slot")
            self.ctx.count("service starts")
        return Channels.thread_start(self, eng, st, b, node)

    def call(self, eng, st, name, base, args, kwargs, node):
        if st.mon.get("phase") == "thread" and st.mon.get("changes", 0) and not any(n for _, n in st.mon.get("slots", ())):
            if name.startswith("os.read") or name in (".poll", ".recv", ".connect", ".sendall", ".communicate", "open", "os.write",
                                                      "subprocess.Popen", "pty.fork", ".wait", "select.select", "io.open"):
                self.ctx.bad("a slot is held until the service ends", eng.loc(st, node),
                             "%s is called after the slot was given back" % name, st.path(), key="held until the end")
        return Channels.call(self, eng, st, name, base, args, kwargs, node)


def slots(st):
    return {k: n for k, n in st.mon.get("slots", ()) if n}


def run(ctx):
    ctx.rule("the count of a limiter, unknown whenever its lock is taken or it is read without, is only ever stored as itself plus "
             "one where known to be below the limit, or minus one where known to be above zero, under the lock; through every "
             "instruction and the threads it starts (starting may fail) a started service holds exactly one slot of its pool, "
             "gives it back exactly once at the end of its thread, and all other paths hold none")
    ctx.assume("a service is what an instruction starts a thread for; the count is the limiter's attribute assigned outside its "
               "constructor; other threads keep the slots they took")
    mon = Slots(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    alone(ctx, eng, mon)
    from ..instr import pools
    for st, client, manager in world(eng):
        pool = pools(eng, st, manager)
        for action, values in [(a, None) for a in sorted(FIELDS)] + sorted(ODD.items()):
            out = instruct(eng, st.setmon(phase="instruction", slots=(), changes=0), manager, action, values)
            where = "the instruction %s" % action
            ends = [(s, "returns", None) for s, _ in out.rets] + [(s, "raises", x) for s, x in out.raises]
            if out.exits:
                raise AnalysisError("%s ends the process" % where)
            if not ends:
                raise AnalysisError("%s never completes" % where)
            ctx.count("instructions")
            seen = 0
            done = set()
            for s, how, x in ends:
                started = s.mon.get("started", ())
                have = slots(s)
                n = sum(have.values())
                ctx.check(n <= len(started), "a start that fails holds no slot", where,
                          "%d slot(s) are held with %d service(s) started (%s%s)" % (
                              n, len(started), how, " " + x[0] if x else ""), s.path(), key=action + " more")
                ctx.check(n >= len(started), "a started service holds its slot", where,
                          "%d slot(s) are held with %d service(s) started (%s%s)" % (
                              n, len(started), how, " " + x[0] if x else ""), s.path(), key=action + " less")
                ctx.check(not s.held, "locks are released", where, "a lock is held at the end", s.path(), key=action + " lock")
                if not started:
                    continue
                seen += 1
                want = pool.get(POOL.get(action))
                if want is not None and n == 1:
                    ctx.check(set(have) == {want}, "the slot is of the service's pool", where,
                              "a slot of another pool is taken", s.path(), key=action + " pool")
                if n == len(started):
                    s = s.setmon(phase="thread", changes=0, failed=())
                    s.facts = {}
                    s.trace = None
                    if s.key() not in done:
                        done.add(s.key())
                        for i, t in enumerate(started):
                            thread(ctx, eng, s, t, action, i + 1)
            if action in POOL and values is None:
                ctx.count("kinds of service", 1 if seen else 0)
            # and while services run, their channels' callbacks and the end of the agent take and give nothing
            for s, how, x in ends:
                if s.mon.get("started") and how == "returns":
                    callbacks(ctx, eng, s.setmon(phase="callback", changes=0), client, manager, action)
                    break
    ctx.need("instructions", 9)
    ctx.need("kinds of service", 5)
    ctx.need("changes of a count", 10)


def alone(ctx, eng, mon):
    """The limiter by itself, at any count: its methods keep to the rules and do what they say."""
    st = eng.start(LIMITER)
    for s, me in make(eng, st, mon.limiter, (sym("pool name", "str"), sym("limit", "int")), havoc=False):
        c = eng.classes[mon.limiter]
        for n, v in sorted(c.attrs.items()):
            if v.op != "func" or n.startswith("__") or len(eng.funcs[v.args[0]].node.args.args) != 1:
                continue
            out = eng.invoke_method(s.setmon(slots=(), changes=0), me, n, ())
            for s2, x in out.rets:
                ctx.check(not s2.held, "locks are released", v.args[0], "the lock is held at the end", s2.path())
                ctx.count("ways through a limiter")
                want = {"increment": 1, "decrement": -1}.get(n)
                if want is not None:
                    ctx.check(sum(slots(s2).values()) == want, "%s changes the count by one" % n, v.args[0],
                              "it returns without doing so", s2.path(), key=n)
            for s2, x in out.raises:
                ctx.check(not s2.held, "locks are released", v.args[0], "the lock is held at the end", s2.path())
                ctx.check(not slots(s2), "a refusal leaves the count alone", v.args[0],
                          "the count is changed and %s raised" % x[0], s2.path(), key=n + " refused")


def thread(ctx, eng, st, t, action, step):
    out = run_thread(eng, st, t, step=step)
    where = "the thread of %s" % action
    ends = [(s, None) for s, _ in out.rets] + list(out.raises)
    if not ends:
        ctx.bad("a slot is given back when the service ends", where, "the thread never ends", st.path())
    ctx.count("thread ends", len(ends))
    for s, x in ends:
        have = sum(slots(s).values())
        ctx.check(have == 0, "a slot is given back exactly once when the service ends", where,
                  "%d slot(s) are held at the end%s" % (have, " by " + x[0] if x else ""), s.path(), key=action + " thread")
        ctx.check(not s.held, "locks are released", where, "a lock is held at the end", s.path(), key=action + " thread lock")
    for s, k in out.exits:
        pass


def callbacks(ctx, eng, st, client, manager, action):
    for e in st.mon.get("events", ()):
        if e[0] != "set_callbacks":
            continue
        for i, cb in enumerate(e[2:]):
            if not isinstance(cb, T) or cb is NONE or cb.op not in ("bound", "func", "closure", "lambda"):
                continue
            out = None
            for args in ((sym("data", "bytes"),), ()):
                out = eng.invoke(st, cb, args, ())
                if out.rets:
                    break
            unchanged(ctx, eng, st, out, "a callback of %s" % action, "%s callback %d" % (action, i))
    for o, n in ((manager, "on_client_close"),):
        if eng.class_attr(eng.obj(st, o).cls, n) is not None:
            out = eng.invoke_method(st, o, n, ())
            unchanged(ctx, eng, st, out, "%s while a service runs" % n, "%s %s" % (action, n))


def unchanged(ctx, eng, st, out, where, key):
    ctx.count("callbacks")
    for s, x in [(s, None) for s, _ in out.rets] + list(out.raises):
        ctx.check(slots(s) == slots(st), "only the service's thread gives its slot back", where,
                  "the slots held change to %s" % (sum(slots(s).values()),), s.path(), key=key)
