"""The table of packet classes, read from the source."""

from .terms import mk, const, is_const, cval
from .program import AnalysisError

MODULE = "dataplicity.m2m.packets"


def type_names(eng, st, t):
    """The type a field declares, as a sorted tuple of names (or None)."""
    if is_const(t) and cval(t) is None:
        return None
    items = eng.known_items(st, t)
    if items is not None:
        r = set()
        for x in items:
            r |= set(type_names(eng, st, x) or ())
        return tuple(sorted(r))
    if t.op == "ext":
        return (t.args[0].replace("builtins.", ""),)
    if t.op == "phi":
        r = set()
        for x in eng.phi_leaves(t):
            r |= set(type_names(eng, st, x) or ())
        return tuple(sorted(r))
    return (str(t),)


def type_enum(eng):
    return eng.find_class("PacketType", MODULE)


def numbers(eng):
    """{name: number} of the packet type enumeration."""
    cid = type_enum(eng)
    c = eng.classes[cid]
    r = {}
    for m in c.members:
        v = c.attrs[m]
        r[m] = cval(v.args[2]) if v.op == "enum" and is_const(v.args[2]) else str(v)
    return r


def table(eng, st):
    """[(class id, packet type name, number, ((field, type names, type term), ...))]"""
    base = eng.find_class("M2MPacket", MODULE)
    enum = type_enum(eng)
    res = []
    for cid in sorted(eng.classes):
        if base not in eng.mro(cid) or cid == base:
            continue
        t = eng.class_attr(cid, "type")
        if t is None or t.op != "enum" or t.args[0] != enum:
            if t is not None and is_const(t):
                if isinstance(cval(t), int) and cval(t) < 0:
                    continue
                name = [n for n, v in numbers(eng).items() if v == cval(t)]
                if name:
                    t = eng.classes[enum].attrs[name[0]]
            if t is None or t.op != "enum":
                raise AnalysisError("packet type of %s is not known: %s" % (cid, t))
        a = eng.class_attr(cid, "attributes")
        items = eng.known_items(st, a) if a is not None else None
        if items is None:
            raise AnalysisError("fields of %s are not known" % cid)
        fields = []
        for f in items:
            pair = eng.known_items(st, f)
            if pair is None or len(pair) != 2 or not is_const(pair[0]):
                raise AnalysisError("a field of %s is not known" % cid)
            fields.append((cval(pair[0]), type_names(eng, st, pair[1]), pair[1]))
        res.append((cid, t.args[1], cval(t.args[2]), tuple(fields)))
    return res


def fill(eng):
    """Put every packet class in the registry of its hierarchy under its own type (what the metaclass does)."""
    st = eng.start(MODULE)
    for cid, tname, number, fields in table(eng, st):
        reg = eng.class_attr(cid, "registry")
        if reg is None or reg.op != "ref":
            raise AnalysisError("no registry of packet classes")
        o = eng.base_heap[reg.args[0]]
        items = dict(o.items)
        items[const(number)] = mk("class", cid)
        eng.base_heap[reg.args[0]] = o.with_(items=items, rest=False)
