"""Encoded messages are self-delimiting, canonical and decodable."""

from ..terms import mk, sym, call, const, is_const, cval, is_call, NONE, TRUE, T, ext
from ..engine import Monitor
from ..facts import rename

MODULE = "dataplicity.m2m.bencode"
KINDS = ("bytes", "str", "int", "list", "tuple", "dict")


def collapse(seq):
    """Repeated suffixes (one per loop iteration) once; which iteration an element is from is forgotten."""
    seq = tuple((k, young(x)) for k, x in seq)
    again = True
    while again:
        again = False
        for n in (1, 2, 3):
            if len(seq) >= 2 * n and seq[-n:] == seq[-2 * n:-n] and any(x[0] == "rec" for x in seq[-n:]):
                seq = seq[:-n]
                again = True
    return seq


class Encode(Monitor):

    def __init__(self, ctx):
        self.ctx = ctx
        self.rec = set()
        self.decoder = None
        self.loops = {}

    # -- every element of an iterated container is encoded
    def iterate(self, eng, st, it, el, node):
        if self.strip(it) is sym("obj"):
            return st.setmon(at=id(node), done=None)
        return st

    def backedge(self, eng, st, node):
        if st.mon.get("at") == id(node):
            self.loops.setdefault(id(node), {}).setdefault(bool(st.mon.get("done")), (eng.loc(st, node), st))
            st = st.setmon(at=None, done=None)
        return st

    def left(self, st):
        """A loop that encodes the elements was left before its end."""
        return st.mon.get("at") is not None and (st.mon.get("done") or True in self.loops.get(st.mon["at"], ()))

    def raises(self, eng, st, name, base, args, kwargs):
        if name in (".encode", ".join", "repr", ".format"):
            return []
        return None

    def sort_raises(self, eng, st, x):
        # sorting keys of different kinds raises; all of them being bytes does not
        it = x
        if is_call(it, ".keys", ".items", "list"):
            it = it.args[1] if it.args[1] is not None else it.args[2][0]
        for k, v in st.facts.items():
            if v and k.op == "forall" and self.same(k.args[0], it) and is_call(k.args[1], "isinstance") \
                    and k.args[1].args[2][1] is ext("bytes"):
                return False
        return True

    @staticmethod
    def strip(t):
        while is_call(t, ".keys", "list", "iter", "sorted", "tuple", ".items", "enumerate"):
            t = t.args[1] if t.args[1] is not None else t.args[2][0]
        if is_call(t, "range") and len(t.args[2]) == 1 and is_call(t.args[2][0], "len"):
            return Encode.strip(t.args[2][0].args[2][0])
        return t

    def same(self, a, b):
        return self.strip(a) is self.strip(b)

    def call(self, eng, st, name, base, args, kwargs, node):
        if name == self.decoder:
            return [("ret", st, call("decoded", None, tuple(args)))]
        if name in (".append", ".appendleft", ".write") and args:
            return [("cont", self.emit(eng, st, (args[0],)))]
        if name in (".extend", ".writelines") and args:
            items = eng.iter_items(st, args[0])
            return [("cont", self.emit(eng, st, items if items is not None else (mk("some", args[0]),)))]
        return None

    def rettype(self, name, t):
        return "list" if name == "decoded" else None

    def emit(self, eng, st, items):
        seq = st.mon.get("seq", ())
        for x in items:
            seq = collapse(seq + (("lit", x),))
        return st.setmon(seq=seq)

    def recursive(self, eng, st, qual, args, kwargs, node):
        self.rec.add(qual)
        self.ctx.count("recursive encodings")
        seq = collapse(st.mon.get("seq", ()) + (("rec", args[0] if args else NONE),))
        st = st.setmon(seq=seq, done=1 if st.mon.get("at") is not None else None)
        r = [("ret", st, mk("call", "encoded", None, tuple(args), (), None))]
        for en in ("EncodingError",):
            cid = eng.find_class(en, MODULE)
            r.append(("raise", st, (cid, True, frozenset(), mk("exc", cid, True, eng.site(st, node), None))))
        return r


def young(t):
    for a in list(t.atoms):
        if a.op == "elem" and str(a.args[1]).endswith("~"):
            t = rename(t, a, mk("elem", a.args[0], a.args[1][:-1]))
        elif a.op == "call" and str(a.args[4]).endswith("~"):
            t = rename(t, a, mk("call", *(a.args[:4] + (a.args[4][:-1],))))
    return t


def lit(seq):
    """Flatten the written pieces: constants merged, encode() of text looked through."""
    parts = []
    for kind, x in seq:
        if kind == "rec":
            parts.append(("rec", x))
            continue
        work = [x]
        while work:
            y = work.pop(0)
            if is_call(y, ".encode") and y.args[1].op in ("fmt", "const"):
                work.insert(0, y.args[1])
            elif y.op == "fmt":
                work = list(y.args[0]) + work
            elif is_const(y):
                v = cval(y)
                v = v.encode() if isinstance(v, str) else v
                if parts and parts[-1][0] == "c":
                    parts[-1] = ("c", parts[-1][1] + v)
                else:
                    parts.append(("c", v))
            elif is_call(y, "encoded"):
                parts.append(("rec", y.args[2][0]))
            elif is_call(y, "str", "repr") and len(y.args[2]) == 1:
                parts.append(("t", y.args[2][0]))
            else:
                parts.append(("t", y))
    return parts


def run(ctx):
    ctx.rule("for every kind of value, the pieces written by encode() on every path: a length prefix counting exactly the "
             "bytes that follow, i..e around integers, l..e around the items in order, d..e around key/value pairs "
             "of the sorted dictionary whose keys are known to be bytes; anything else raises EncodingError")
    ctx.assume("str() of an integer is its decimal form; sorted() orders byte strings")
    mon = Encode(ctx)
    eng = ctx.engine(mon)
    mon.decoder = eng.find_func("decode", MODULE)
    f = eng.global_value(MODULE, "encode")
    err = eng.find_class("EncodingError", MODULE)
    obj = sym("obj")
    isa = lambda k: mk("call", "isinstance", None, (obj, ext(k)), (), None)
    for kind in KINDS + (None,):
        st = eng.start(MODULE)
        sts = [st]
        if kind is not None:
            sts = [s for z in sts for s in eng.assume(z, isa(kind), True)]
        for k in KINDS:
            if k != kind:
                sts = [s for z in sts for s in eng.assume(z, isa(k), False)]
        rets = 0
        for st in sts:
            out = eng.invoke(st, f, [obj])
            for s, exc in out.raises:
                w = "encode of %s" % (kind or "anything else")
                ctx.check(eng.matches(exc, err) is True, "only EncodingError leaves encode", w,
                          "encode may raise %s" % exc[0], s.path(), key="escape %s %s" % (kind, exc[0]))
                ctx.check(kind not in ("bytes", "str", "int"), "simple values are encoded", w,
                          "encoding a %s may fail" % kind, s.path())
            for s, v in out.rets:
                rets += 1
                ctx.count("paths")
                if kind is None:
                    ctx.bad("other values are rejected", "encode", "a value of another kind is encoded", s.path())
                    continue
                seq = s.mon.get("seq", ()) or (("lit", v),)
                ok, why = judge(eng, s, obj, kind, lit(seq), mon)
                ctx.check(ok, "layout of an encoded %s" % kind, "encode", "%s; written: %s" % (
                    why, lit(seq)), s.path())
                ctx.check(not mon.left(s), "every element is encoded", "encode of %s" % kind,
                          "the loop over the elements of a %s may be left before its end" % kind, s.path())
                good = True
                if is_call(v, ".join"):
                    good = v.args[1] is const(b"")
                elif is_const(v):
                    good = isinstance(cval(v), bytes)
                else:
                    good = v.op == "fmt" or is_call(v, "bytes", ".getvalue")
                ctx.check(good, "what was written is returned", "encode", "encode returns %s" % (v,), s.path())
        if kind is None:
            ctx.check(rets == 0, "other values are rejected", "encode", "a value of another kind is encoded")
        else:
            ctx.check(rets > 0, "supported values are encoded", "encode of %s" % kind, "a %s is rejected" % kind)
    for both in mon.loops.values():
        if True in both:
            ctx.check(False not in both, "every element is encoded", both[True][0],
                      "an element of a container may be left out", both[False][1].path() if False in both else ())
    ctx.need("recursive encodings", 3)
    ctx.need("paths", 6)


def judge(eng, st, obj, kind, parts, mon):
    if kind == "bytes":
        return counted(parts, obj)
    if kind == "str":
        body = call(".encode", obj, (const("utf-8"),))
        for enc in ((const("utf-8"),), (const("utf8"),), (), (const("UTF-8"),)):
            ok, why = counted(parts, call(".encode", obj, enc))
            if ok:
                return ok, why
        return counted(parts, body)
    if kind == "int":
        ok = len(parts) == 3 and parts[0] == ("c", b"i") and parts[1] == ("t", obj) and parts[2] == ("c", b"e")
        return ok, "an integer must be written as i<decimal>e"
    if kind in ("list", "tuple"):
        if not parts:
            return False, "nothing is written"
        inner = parts[1:-1]
        if parts == [("c", b"le")]:
            return True, ""
        ok = parts[0] == ("c", b"l") and parts[-1] == ("c", b"e")
        inner = [(k, mk("elem", obj, "index") if x.op == "item" and x.args[0] is obj and x.args[1].op == "elem" and is_call(
            x.args[1].args[0], "range") and Encode.strip(x.args[1].args[0]) is obj else x) for k, x in inner]
        ok = ok and len(inner) == 1 and all(k == "rec" and x.op == "elem" and Encode.strip(x.args[0]) is obj
                                            and not is_call(x.args[0], "sorted", "reversed", "set") for k, x in inner)
        return ok, "a list must be written as l<every item, in order>e"
    if kind == "dict":
        if parts == [("c", b"de")]:
            return True, ""
        if not (len(parts) == 4 and parts[0] == ("c", b"d") and parts[-1] == ("c", b"e")
                and parts[1][0] == parts[2][0] == "rec"):
            return False, "a dictionary must be written as d<key><value>..e"
        k, v = parts[1][1], parts[2][1]
        it = None
        if k.op == "elem":
            it = k.args[0]
            okv = v is mk("item", obj, k)
        elif k.op == "item" and k.args[0].op == "elem" and k.args[1] is const(0):
            it = k.args[0].args[0]
            okv = v is mk("item", k.args[0], const(1))
        else:
            return False, "the keys of a dictionary must be written"
        if not okv:
            return False, "each key must be followed by its own value"
        if not (is_call(it, "sorted") and not [1 for n, x in it.args[3]] and Encode.strip(it) is obj):
            return False, "the keys must be written in sorted order"
        known = eng.decide(st, mk("call", "isinstance", None, (k, ext("bytes")), (), None)) is True
        for fk, fv in st.facts.items():
            if fv and fk.op == "forall" and mon.same(fk.args[0], it) and is_call(fk.args[1], "isinstance") \
                    and fk.args[1].args[2][1] is ext("bytes"):
                known = True
        return known, "the keys of a dictionary must be known to be bytes"
    return False, "?"


def counted(parts, body):
    want = [("t", mk("call", "len", None, (body,), (), None)), ("c", b":"), ("t", body)]
    return parts == want, "a string must be written as <number of bytes>:<bytes>"
