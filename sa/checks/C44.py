"""C44: what a thread uses is set up before the thread is started."""

import ast

from ..terms import mk, sym, const, NONE
from ..instr import Channels, instruct, FIELDS, MANAGER
from ..points import Points
from ..program import AnalysisError

TECHNIQUE = ("abstract interpretation of the construction of the agent, of its main loop and of the start of each service: what is first set "
             "after a thread was started, against what the functions that thread can reach (call graph by points-to) read")
NOTE = "Attributes are told apart by the class of their object; globals of modules are not looked at."
RULE = "what a thread's code uses is set up before the thread is started"
CHANGES = {".append", ".appendleft", ".add", ".update", ".setdefault", ".insert", ".extend"}
LOOKS = {"get", "items", "values", "keys", "pop", "popitem", "popleft", "index", "count", "copy"}


class Order(Channels):
    """mon.running = ((functions run, addresses of the objects there were), ...)"""

    write_fails = False

    def __init__(self, ctx):
        self.ctx = ctx

    def prepare(self, eng):
        Channels.prepare(self, eng)
        self.p = Points()
        self.callees = {}
        for (q, _), cs in self.p.calls.items():
            self.callees.setdefault(q, set()).update(cs)
        self.reached = {}
        self.stubs = {q: n for q, n in self.stubs.items() if n != "perform_scan"}
        poll = eng.class_attr(eng.find_class("Client", "dataplicity.client"), "poll")
        if poll is not None and poll.op == "func":
            self.stubs[poll.args[0]] = "poll"

    def event(self, eng, st, what, ch, args, node):
        return st

    def reads(self, quals):
        """({(class, attribute): where}, {(class, attribute): where looked into}) of the functions reachable."""
        r = self.reached.get(quals)
        if r is not None:
            return r
        seen, work = set(quals), list(quals)
        while work:
            for c in self.callees.get(work.pop(), ()):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        attrs, looks = {}, {}
        for q in sorted(seen):
            f = self.p.fns.get(q)
            if f is None:
                continue
            for top in f.body() if callable(getattr(f, "body", None)) else f.node.body:
                for n in ast.walk(top):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                        for c in self.classes(n.value, f):
                            attrs.setdefault((c, n.attr), f.loc(n))
                    x = None
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                        x = n.value
                    elif isinstance(n, ast.Attribute) and n.attr in LOOKS:
                        x = n.value
                    elif isinstance(n, (ast.For, ast.comprehension)):
                        x = n.iter
                    elif isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                        x = n.comparators[0]
                    if isinstance(x, ast.Attribute):
                        for c in self.classes(x.value, f):
                            looks.setdefault((c, x.attr), f.loc(n if hasattr(n, "lineno") else x))
        self.reached[quals] = attrs, looks
        return attrs, looks

    def classes(self, e, f):
        r = set()
        for v in self.p.ev(e, f):
            if v[0] == "inst":
                r.update(self.p.mro(v[1]))
        return r

    def raises(self, eng, st, name, base, args, kwargs):
        return []

    def thread_start(self, eng, st, b, node):
        body = eng.thread_body(st, b)
        if body is None:
            raise AnalysisError("a thread with an unknown target is started")
        f = body[0]
        while f.op in ("bound", "partial"):
            f = f.args[0]
        q = f.args[0]
        if q not in self.p.fns:
            raise AnalysisError("a thread runs an unknown function (%s)" % (q,))
        self.ctx.count("starts of threads")
        self.ctx.check(True, RULE, eng.loc(st, node), "the start of %s" % q.replace(":", "."))
        run = st.mon.get("running", ()) + (((q,), frozenset(st.heap)),)
        return [("ret", st.setmon(running=run), NONE)]

    def used(self, eng, st, a, name, node, looked):
        o = st.heap.get(a)
        for quals, there in st.mon.get("running", ()):
            if a not in there:
                continue
            for cid in self.p.mro(o.cls) if isinstance(o.cls, str) else ():
                where = self.reads(quals)[looked].get((cid, name))
                self.ctx.check(where is None, RULE, eng.loc(st, node), "%s of %s is %s here, after the start of a thread (%s) that "
                               "uses it at %s" % (name, cid.split(":")[-1], "given an entry" if looked else "set", quals[0].replace(
                                   ":", "."), where), st.path(), key="%s.%s" % (cid.split(":")[-1], name))

    def store(self, eng, st, b, name, v, node, out):
        if b.op == "ref" and st.mon.get("running"):
            o = eng.obj(st, b)
            if o is not None and o.kind == "inst":
                old = o.items.get(name)
                if old is None:
                    old = eng.class_attr(o.cls, name)
                if old is None or old is NONE and v is not NONE:
                    self.ctx.count("values set after a start")
                    self.used(eng, st, b.args[0], name, node, 0)
        return None

    def owners(self, eng, st, b):
        return [(a, k) for a, o in st.heap.items() if o.kind == "inst" for k, v in o.items.items() if v is b]

    def change(self, eng, st, b, node):
        if st.mon.get("running"):
            for a, k in self.owners(eng, st, b):
                self.used(eng, st, a, k, node, 1)

    def setitem(self, eng, st, b, k, v, node, out):
        if b is not None and b.op == "ref":
            self.change(eng, st, b, node)
        return None

    def call(self, eng, st, name, base, args, kwargs, node):
        if name in CHANGES and base is not None and base.op == "ref":
            self.change(eng, st, base, node)
        return self.constructing(eng, st, name, base, args, kwargs, node) or Channels.call(
            self, eng, st, name, base, args, kwargs, node)


def run(ctx):
    ctx.rule("the agent is constructed, its main loop run, and every instruction given: at each start of a thread the objects there are "
             "are noted; after it, no attribute of these that code reachable from the thread reads is given its first value, and no "
             "table of theirs that it looks into is given an entry")
    ctx.assume("a value that is replaced by another (other than None) serves as well")
    mon = Order(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    cid, mid = eng.find_class("Client", "dataplicity.client"), eng.find_class("M2MManager", MANAGER)
    kw = (("rpc_url", const("https://api.example/")), ("m2m_url", const("wss://m2m.example/?x=y")), ("serial", sym("serial")),
          ("auth_token", sym("auth_token")), ("remote_directory_path", const("/remote")))
    made, out = [], eng.newout()
    for st, client in eng.instantiate(eng.start("dataplicity.client").setmon(running=()), mk("class", cid), (), kw, eng.NODE, out):
        ctx.count("constructions")
        st = st.setmon(running=())
        if not any(client is c and s.heap.keys() == st.heap.keys() for s, c in made):
            made.append((st, client))
    for st, client in made:
        eng.invoke_method(st, client, "run_forever", (), ())
        for manager in {v for v in eng.obj(st, client).items.values() if v.op == "ref" and getattr(
                eng.obj(st, v), "cls", None) == mid}:
            for action in sorted(FIELDS):
                ctx.count("instructions")
                instruct(eng, st, manager, action)
    ctx.need("constructions", 1)
    ctx.need("instructions", 5)
    ctx.need("starts of threads", 5)
