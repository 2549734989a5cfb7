"""Decoding arbitrary bytes always ends, in a value or a decode error."""

import ast

from ..terms import mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, T
from ..engine import Monitor

MODULE = "dataplicity.m2m.bencode"


class Decode(Monitor):

    def __init__(self, ctx, escaping):
        self.ctx = ctx
        self.escaping = escaping
        self.seen = set()
        self.entry = None
        self.recursive_quals = set()

    def rettype(self, name, t):
        return "bytes" if name in (".read", ".read1") else None

    # -- what raises
    def raises(self, eng, st, name, base, args, kwargs):
        if name in (".read", ".read1", ".seek", ".tell", ".getvalue", ".getbuffer", "io.BytesIO", ".close"):
            if args and not is_const(args[0]):
                return [("OverflowError", True)]
            return []
        if name == "dict":
            return [("TypeError", True), ("ValueError", True)]
        return None

    def dict_raises(self, eng, st, a):
        return True

    def subscript_raises(self, eng, st, b, k):
        return k.op != "sl"

    # -- reading
    def call(self, eng, st, name, base, args, kwargs, node):
        if name == ".read":
            st = self.fold(eng, st)
            self.ctx.count("reads of input")
            t = call(".read", base, tuple(args), tuple(kwargs), eng.uid(st, node))
            res = [("raise", st, (n, x, frozenset(), mk("exc", n, x, eng.site(st, node), None)))
                   for n, x in self.raises(eng, st, name, base, args, kwargs)]
            return res + [("ret", eng.purge(st, t).setmon(cur=t), t)]
        if name in (".append", ".add", ".insert", ".extend", ".appendleft", ".setdefault", ".put") and args:
            for a in args:
                self.stored(eng, st, a, node)
            return [("cont", self.kept(eng, st, args))]
        return None

    def setitem(self, eng, st, b, k, v, node, out):
        self.stored(eng, st, k, node)
        self.stored(eng, st, v, node)
        if any(x.op == "call" and x.args[0].startswith("recursive:") for x in subterms(k)):
            eng.raise_(st, out, "TypeError", True, node)
        return self.kept(eng, st, (k, v))

    def pieces(self, eng, st, vals):
        parts = list(vals)
        while parts:
            x = parts.pop()
            if x.op == "tuple":
                parts.extend(x.args[0])
            elif x.op == "ref" and eng.known_items(st, x) is not None:
                parts.extend(eng.known_items(st, x))
            else:
                yield x

    def kept(self, eng, st, vals):
        """The decoded values that are not yet part of the result."""
        have = set(self.pieces(eng, st, vals))
        return st.setmon(loose=tuple(x for x in st.mon.get("loose", ()) if x[0] not in have) or None)

    def dropped(self, eng, st, ret):
        return [x for x, old in self.kept(eng, st, (ret,)).mon.get("loose", ())
                if eng.decide(st, eng.mkeq(x, NONE)) is not True]

    def stored(self, eng, st, v, node):
        for x in self.pieces(eng, st, (v,)):
            if x.op == "call" and x.args[0].startswith("recursive:"):
                self.ctx.count("items stored")
                self.ctx.check(eng.decide(st, eng.mkeq(x, NONE)) is False, "the end marker is never an item",
                               eng.loc(st, node), "the end of a container (or nothing) may be stored as an item",
                               st.path())

    def widened(self, eng, st, old, new):
        return st.setmon(cur=new) if st.mon.get("cur") is old else st

    def fold(self, eng, st):
        cur = st.mon.get("cur")
        if cur is not None and eng.decide(st, cur) is True:
            st = st.setmon(progress=1, ever=1)
        elif cur is not None and fixed(cur):
            st = st.setmon(ended=1)
        return st

    def recursive(self, eng, st, qual, args, kwargs, node):
        self.recursive_quals.add(qual)
        st = self.fold(eng, st)
        u = call("recursive:" + qual, None, args, tuple(kwargs), eng.uid(st, node))
        res = []
        for name, exact in sorted(self.escaping):
            res.append(("raise", st, (name, exact, frozenset(), mk("exc", name, exact, eng.site(st, node), None))))
        # a value was decoded: input was consumed (checked on every return below)
        st2 = eng.purge(st, u)
        res.append(("ret", st2.setmon(progress=1, ever=1, last=u, loose=st2.mon.get("loose", ()) + ((u, NONE),)), u))
        return res

    def returned(self, eng, st, qual, args, v, node):
        if v.op == "call" and v.args[0] == ".read" and v.args[2] and not is_const(v.args[2][0]):
            size = v.args[2][0]
            n = mk("call", "len", None, (v,), (), None)
            good = eng.decide(st, eng.mkeq(n, size)) is True or eng.decide(st, mk("cmp", "lt", n, size)) is False
            self.ctx.count("strings returned")
            self.ctx.check(good, "a returned string has its declared length", "%s (%s)" % (qual, eng.loc(st, node)),
                           "a string shorter than its declared length may be returned", st.path(),
                           key="short string")
        if qual in self.recursive_quals:
            good = st.mon.get("ever") or (st.mon.get("cur") is not None and eng.decide(
                st, st.mon["cur"]) is True)
            self.ctx.check(bool(good), "a value is only returned after input was consumed", qual,
                           "a value may be returned at the end of the input", st.path(), key="no input")
            self.ctx.check(not self.fold(eng, st).mon.get("ended"), "no value is returned once the input has ended", qual,
                           "a value cut short by the end of the input may be returned", st.path(), key="cut short")
            if st.mon.get("last") is not None:
                ctx = self.ctx
                ctx.count("containers returned")
                ctx.check(eng.decide(st, eng.mkeq(st.mon["last"], NONE)) is True,
                          "a container ends at its end marker", qual,
                          "a container may be returned before its end marker was read", st.path(), key="early end")
                self.whole(eng, st, v, qual)
        return None

    def whole(self, eng, st, v, where):
        left = self.dropped(eng, st, v)
        self.ctx.check(not left, "every decoded item is part of the result", where,
                       "a decoded item may be left out of the value: %s" % (left[:1],), st.path(), key="item dropped")

    def raised(self, eng, st, qual, args, exc, node):
        self.seen.add((qual, exc[0], exc[1]))
        return st

    def backedge(self, eng, st, node):
        if not isinstance(node, (ast.While, ast.For)):
            return st
        if isinstance(node, ast.For) and not (isinstance(node.iter, ast.Call) and len(node.iter.args) == 2
                                              and getattr(node.iter.func, "id", "") == "iter"):
            return st
        cur = st.mon.get("cur")
        ahead = cur is not None and fixed(cur) and eng.decide(st, cur) is None
        if not ahead:
            st = self.fold(eng, st)
        self.ctx.count("loop iterations")
        self.ctx.check(bool(st.mon.get("progress")), "every loop iteration consumes input", eng.loc(st, node),
                       "the loop can go round again although the input has ended", st.path(), key="loop")
        # what was decoded in this iteration may be stored in the next
        loose = st.mon.get("loose", ())
        self.whole(eng, st.setmon(loose=tuple(x for x in loose if x[1] is TRUE)), NONE, eng.loc(st, node))
        loose = tuple((x, TRUE) for x, old in loose if old is NONE and eng.decide(st, eng.mkeq(x, NONE)) is not True)
        # a read nothing is known about yet is judged in the next iteration
        return st.setmon(progress=None, cur=cur if ahead else None, loose=loose or None)


def fixed(t):
    n = cval(t.args[2][0]) if t.args[2] and is_const(t.args[2][0]) else None
    return isinstance(n, int) and n > 0


def run(ctx):
    ctx.rule("every exception that can leave decode() is DecodeError; loops are left when read() returns nothing; "
             "a string is returned only if its length was compared with its declared size; "
             "every item decoded is stored; an end marker never becomes an item or a dictionary value; no value is returned after a read that may have found the end")
    ctx.assume("io.BytesIO.read(n) returns at most n bytes, b'' only at the end (n > 0), and raises nothing "
               "but OverflowError for a size that is not an index")
    ctx.assume("exhaustion of memory is out of scope")
    escaping = {("RecursionError", True)}
    for _ in range(6):
        mon = Decode(ctx, escaping)
        eng = ctx.engine(mon)
        f = eng.global_value(MODULE, "decode")
        out = eng.invoke(eng.start(MODULE), f, [sym("data", "bytes")])
        new = set(escaping)
        for qual, name, exact in mon.seen:
            if qual in mon.recursive_quals:
                new.add((name, exact))
        if new == escaping:
            break
        ctx.violations.clear()
        ctx.obligations.clear()
        escaping = new
    good = eng.find_class("DecodeError", MODULE)
    for st, exc in out.raises:
        ctx.count("exceptional ends")
        ctx.check(eng.matches(exc, good) is True, "only DecodeError leaves decode", "decode: %s raised at %s" % (
            exc[0].split(":")[-1], exc[3].args[2] if exc[3].op == "exc" else exc[0]),
            "decode may raise %s" % exc[0].split(":")[-1], st.path(), key="escape %s" % exc[0])
    ctx.check(not out.exits, "decode returns", "decode", "decode may end the process")
    ctx.count("normal ends", len(out.rets))
    ctx.need("reads of input", 3)
    ctx.need("strings returned", 1)
    ctx.need("items stored", 1)
    ctx.need("normal ends", 1)
    ctx.need("containers returned", 1)
