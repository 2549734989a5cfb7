"""C43: a terminal's descriptor is closed once, on every end, and never used afterwards."""

import ast

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE
from ..instr import world
from ..term import Terms, Meanwhile, FD, step_node
from ..engine import Monitor
from ..world import is_log, make, param_syms
from ..program import AnalysisError

TECHNIQUE = ("typestate of the pseudo terminal's descriptor by abstract interpretation of a terminal's thread, input and resize requests "
             "happening at any point of it; lockset analysis of the uses by other threads against the closing")
NOTE = "Files, sockets and pipes that are objects close themselves and are not part of the rule."
CLOSED = "a terminal's descriptor is closed on every end"
ONCE = "a descriptor is closed once"
AFTER = "a descriptor is not used after it is closed"
BETWEEN = "a descriptor is not closed while another thread uses it"
OTHER = "every other raw descriptor is closed"
RAW = ("os.open", "os.dup", "os.pipe", "os.openpty", "pty.openpty", "tempfile.mkstemp", "os.memfd_create", "os.eventfd", "os.pidfd_open")
NOFAIL = ("select.poll", ".register", ".unregister", "shlex.split", "os.close", "array.array", ".poll", "json.loads")
DATA, CONTROL = sym("input of the terminal", "bytes"), sym("control message", "bytes")


class Descriptors(Meanwhile):
    """mon.closed; mon.other: locks another thread holds since it read the descriptor from an attribute (None: it is not running)."""

    def __init__(self, ctx):
        Meanwhile.__init__(self, ctx)
        self.closings, self.uses = {}, {}

    def raises(self, eng, st, name, base, args, kwargs):
        if name in NOFAIL:
            return []
        return Meanwhile.raises(self, eng, st, name, base, args, kwargs)

    def forked(self, eng, st, node):
        return [(st.setmon(child="parent"), 4242)]

    def event(self, eng, st, what, ch, args, node):
        return Terms.event(self, eng, st, what, ch, args, node) if what == "set_callbacks" else st

    def message(self, eng, st, what, step):
        """[state]: after input or a control message."""
        f, v = self.callbacks[what]
        out = eng.newout()
        res = [z for z, _ in eng.call_value(st.setmon(other=()), f, v, (), step_node(step), out)]
        if out.exits:
            raise AnalysisError("a message for a terminal ends the process")
        return [z.setmon(other=None) for z in res + [z for z, _ in out.raises]]

    def meanwhile(self, eng, st, what):
        return self.message(eng, st, what, 3)

    def getattr(self, eng, st, b, name, node):
        r = Meanwhile.getattr(self, eng, st, b, name, node)
        if st.mon.get("other") is None or r is not None or b.op != "ref":
            return r
        o = eng.obj(st, b)
        if o is not None and o.kind == "inst" and o.items.get(name) is const(FD):
            return [(st.setmon(other=tuple(st.held)), const(FD))]
        return r

    def release(self, eng, st, lock, node):
        held = st.mon.get("other")
        if held and lock in held:
            st = st.setmon(other=tuple(x for x in held if x is not lock))
        return Meanwhile.release(self, eng, st, lock, node)

    def call(self, eng, st, name, base, args, kwargs, node):
        where = eng.loc(st, node)
        if name == "json.loads" and args and CONTROL in subterms(args[0]):
            from ..state import HObj
            s, l = eng.new(st, HObj("list", items=(sym("columns", "int"), sym("lines", "int"))), node, "size")
            s, d = eng.new(s, HObj("dict", items={const("type"): const("window_resize"), const("size"): l}), node, "control")
            return [("ret", s, d)]
        if name in ("pty.fork", "os.forkpty") and not st.mon.get("depth") and st.mon.get("pre") is not None:
            res = []
            for s in self.around(eng, st, node):
                res += Meanwhile.call(self, eng, s, name, base, args, kwargs, node)
            return res
        if name in eng.funcs or is_log(name, base):
            return Meanwhile.call(self, eng, st, name, base, args, kwargs, node)
        if name == "os.close" and args and args[0] is const(FD):
            res = []
            for s in self.around(eng, st, node):
                self.report.count("closings")
                self.report.check(not s.mon.get("closed"), ONCE, where, "it is closed again; by then the number may be another's", s.path(),
                                  key="twice")
                if s.mon.get("other") is None:
                    self.closings.setdefault(where, []).append((tuple(s.held), s.path()))
                res.append(("ret", s.setmon(closed=1), NONE))
            return res
        if any(FD in (cval(x) if is_const(x) else None,) for a in args for x in subterms(a)):
            res = []
            used = name.startswith(("os.", "fcntl.", "termios.", "tty.", "select."))
            for s in self.around(eng, st, node) if used else [st]:
                if used:
                    self.report.count("uses")
                    self.report.check(not s.mon.get("closed"), AFTER, where, "%s is called with a descriptor that was closed; the number "
                                      "may be another's" % name, s.path(), key="after %s" % name)
                    held = s.mon.get("other")
                    if held is not None:
                        self.uses.setdefault((where, name), []).append((held, s.path()))
                n = call(name, base, tuple(args), (), eng.uid(s, node))
                v = NONE if name in ("fcntl.ioctl", "termios.tcsetwinsize") else n
                s = eng.purge(s, n)
                if name == "os.fdopen":
                    raise AnalysisError("the descriptor becomes a file at %s" % where)
                res.append(("ret", s, v))
                if name not in NOFAIL:
                    res.append(self.exc(eng, s, node))
            return res
        return Meanwhile.call(self, eng, st, name, base, args, kwargs, node)

    def rettype(self, name, t):
        return {"os.read": "bytes", "os.write": "int"}.get(name)


def run(ctx):
    ctx.rule("the thread of a terminal is followed to its end, with every call failing or not, and input, a request to resize or the "
             "close of its channel handled as a whole at any point of it or afterwards: at every end its descriptor has been closed, once, and nothing was done with "
             "it afterwards; where input and requests use the descriptor, a lock is held since it was looked up that is also held "
             "where it is closed.  Every other function that opens a raw descriptor closes it, or hands it on, at each of its ends")
    ctx.assume("closing works; a message interrupts the thread of a terminal once")
    mon = Descriptors(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    for st, client, manager in world(eng):
        mon.root = st.cur
        done = set()
        for s in mon.threads(eng, st, manager):
            for c in s.mon.get("callbacks", ()):
                fs = (c[1] + (None,) * 3)[:3]
                mon.callbacks = {w: (f, v) for w, f, v in zip(("input", "close", "control"), fs, ((DATA,), (), (CONTROL,)))
                                 if f not in (None, NONE)}
            for t in s.mon["started"]:
                mon.body = t
                s = s.setmon(started=(), failed=(), depth=0, pre=None, insider=(), closed=0, other=None)
                if (t, s.key()) in done:
                    continue
                done.add((t, s.key()))
                for what in sorted(mon.callbacks):
                    late = []
                    out = mon.thread(eng, s.setmon(pre=what), 1)
                    if out.exits:
                        raise AnalysisError("a terminal ends the process")
                    for z, x in [(z, None) for z, _ in out.rets] + list(out.raises):
                        if z.mon.get("child") == "parent":
                            ctx.count("ends")
                            if z.mon.get("pre"):
                                late.append((what, z.setmon(pre=None)))
                            ctx.check(z.mon["closed"], CLOSED, "at the end of a terminal's thread", "it is still open%s" % (
                                " after %s" % x[0] if x else ""), z.path(), key="open")
                    for w, z in distinct(late):
                        mon.message(eng, z, w, 5)
    closings = [(w, h, p) for w, hs in mon.closings.items() for h, p in hs]
    for (where, name), us in sorted(mon.uses.items()):
        for held, path in us:
            for w, h, p in closings:
                ctx.check(set(held) & set(h), BETWEEN, where, "%s is called with a descriptor that may be closed meanwhile, at %s" % (name, w),
                          path, key="%s against %s" % (name, "closing"))
    for qual, fn in sorted(eng.funcs.items()):
        if "<locals>" not in qual and any(raw(n) for n in ast.walk(fn.node)):
            other(ctx, eng, qual)
    ctx.need("ends", 4)
    ctx.need("closings", 1)
    ctx.need("uses", 3)


def distinct(pairs):
    seen = {}
    for w, z in pairs:
        z = z.copy()
        z.facts = {}
        seen.setdefault((w, z.key()), (w, z))
    return list(seen.values())


def raw(n):
    """Whether n is a call that may open a raw descriptor."""
    f = n.func if isinstance(n, ast.Call) else None
    if isinstance(f, ast.Attribute):
        return isinstance(f.value, ast.Name) and any(x.split(".")[-1] == f.attr for x in RAW) and (f.attr != "open" or f.value.id == "os")
    return isinstance(f, ast.Name) and f.id != "open" and any(x.split(".")[-1] == f.id for x in RAW)


class Raw(Monitor):
    """mon.opened: descriptors opened and neither closed nor handed on."""

    def __init__(self, ctx):
        self.ctx = ctx

    def raises(self, eng, st, name, base, args, kwargs):
        return [] if is_log(name, base) or name in RAW + ("os.close", "os.fdopen") else None

    def call(self, eng, st, name, base, args, kwargs, node):
        if name in RAW:
            self.ctx.count("raw descriptors")
            t = call(name, base, tuple(args), (), eng.uid(st, node))
            s = eng.purge(st, t)
            ts = (t,)
            v = t
            if name in ("os.pipe", "os.openpty", "pty.openpty"):
                ts = (mk("item", t, const(0)), mk("item", t, const(1)))
                v = mk("tuple", ts)
            elif name == "tempfile.mkstemp":
                ts = (mk("item", t, const(0)),)
                v = mk("tuple", (ts[0], mk("item", t, const(1))))
            return [("ret", s.setmon(opened=s.mon.get("opened", ()) + ts), v),
                    ("raise", st, ("OSError", True, frozenset(), mk("exc", "OSError", True, eng.site(st, node), None)))]
        if name in ("os.close", "os.fdopen") or name in eng.funcs or name in ("open", "io.open", "socket.fromfd"):
            gone = [t for t in st.mon.get("opened", ()) if t in args]
            if gone:
                s = st.setmon(opened=tuple(t for t in st.mon["opened"] if t not in gone))
                if name in eng.funcs:
                    return None
                return [("ret", s, NONE if name == "os.close" else call(name, base, tuple(args), (), eng.uid(s, node)))]
        return None

    def store(self, eng, st, b, name, v, node, out):
        return None


def other(ctx, eng0, qual):
    e = ctx.engine(Raw(ctx))
    fn = e.funcs[qual]
    st = e.start(fn.module)
    args = tuple(param_syms(e, qual, skip=0 if fn.cls is None else 1))
    outs = []
    if fn.cls is not None:
        for s, r in make(e, st, fn.cls):
            outs.append((e.invoke_method(s, r, fn.node.name, args), r))
    else:
        outs.append((e.invoke(st, mk("func", qual, None), args), None))
    for out, me in outs:
        for z, v in [(z, v) for z, v in out.rets] + [(z, None) for z, _ in out.raises]:
            left = [t for t in z.mon.get("opened", ()) if not (isinstance(v, T) and t in subterms(v)) and not any(
                t in o.terms() for o in z.heap.values())]
            ctx.check(not left, OTHER, qual.replace(":", "."), "%s is still open at an end of the function" % (left[0] if left else ""),
                      z.path(), key="raw %s" % qual)
