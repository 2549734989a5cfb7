"""Collecting metadata: missing sources give empty values, present ones true values, nothing stays open."""

import re
from itertools import product

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE
from ..engine import Monitor
from ..linear import poly
from ..world import const_of
from ..state import HObj

TECHNIQUE = "path-sensitive abstract interpretation of the metadata collector under every combination of missing sources"

MODULE = "dataplicity.device_meta"
CPUINFO, MODEL = "/proc/cpuinfo", "/proc/device-tree/model"
FILES = {CPUINFO: "cpuinfo", MODEL: "model"}
KEYS = {"agent_version": "version", "machine_revision": "cpuinfo", "model_name": "model", "os_version": "distro",
        "uname": "uname", "ip_list": "ifaces"}
FAULTS = {"cpuinfo": ("ok", "absent", "unreadable", "read"), "model": ("ok", "absent", "unreadable", "read"),
          "ifaces": ("ok", "socket", "ioctl")}
LINES = ("blank", "other", "near", "revision")
OPEN = ("open", "io.open", "codecs.open")
RECORDS = 5
NAMES = {"blank": b"\n", "other": b"Hardware\t", "near": b"CPU revision\t", "revision": b"Revision\t"}
THROUGH = (".splitlines", ".split", ".readlines", ".read", "iter", "list", "tuple", ".strip")


def handle_of(t):
    while t is not None and t.op == "call" and t.args[0] not in OPEN:
        t = t.args[1] if t.args[1] is not None else t.args[2][0] if t.args[2] else None
    return t if t is not None and is_call(t, *OPEN) else None


def path_of(t):
    a = t.args[2][0] if t.args[2] else dict(t.args[3]).get("file", NONE)
    return const_of(a) if is_const(a) else None


class Sources(Monitor):
    """config: {source: fault}; lines: the kinds of the lines of cpuinfo. mon: open = handles, unsure, ioctl."""

    config = {}
    lines = ()

    def exc(self, eng, st, node, name="OSError", exact=False):
        return ("raise", st, (name, exact, frozenset(), mk("exc", name, exact, eng.site(st, node), None)))

    def raises(self, eng, st, name, base, args, kwargs):
        return []

    def subscript_raises(self, eng, st, b, k):
        ls = self.line_in(b)
        if ls and is_call(b, ".split", ".rsplit") and is_const(k):
            return not (cval(k) in (0, -1) or cval(k) in (1, -2) and self.kind(ls) != "blank")
        return False

    def unpack_raises(self, eng, st, v, n, node):
        ls = self.line_in(v)
        if ls and is_call(v, ".split", ".rsplit"):
            most = [const_of(a) for a in v.args[2][1:2]] + [const_of(a) for k, a in v.args[3] if k == "maxsplit"]
            return not (n == 2 and most == [1] and self.kind(ls) != "blank")
        return False

    def handle(self, t):
        h = handle_of(t)
        return FILES.get(path_of(h)) if h is not None else None

    def line_in(self, t):
        r = {x for x in subterms(t) if x.op == "sym" and str(x.args[0]).startswith("line:")}
        return r.pop() if len(r) == 1 else None

    def kind(self, line):
        return str(line.args[0]).split(":")[2]

    def decide(self, eng, st, t):
        line = self.line_in(t)
        if line is None:
            return None
        kind = self.kind(line)
        consts = [cval(x) for x in subterms(t) if is_const(x) and isinstance(cval(x), (str, bytes)) and cval(x)]
        words = [(c.decode("latin1") if isinstance(c, bytes) else c).lower() for c in consts]
        if t.op == "cmp" and t.args[0] in ("lt", "le", "gt", "ge", "is", "eq") and any(
                x.op == "const" and isinstance(cval(x), int) for x in t.args[1:]):
            k = [cval(x) for x in t.args[1:] if x.op == "const"][0]
            o = [x for x in t.args[1:] if x.op != "const"][0]
            if is_call(o, "len") and is_call(o.args[2][0], ".split") and t.args[1] is o:
                n = {"blank": 1, "other": 2, "near": 2, "revision": 2}[kind]
                return {"lt": n < k, "le": n <= k, "gt": n > k, "ge": n >= k, "eq": n == k}.get(t.args[0])
            return None
        if any("revision" in w for w in words):
            return near(t, words) if kind == "near" else kind == "revision"
        if t.op == "cmp" and any(w == ":" for w in words):
            return kind != "blank"
        if t.op in ("call", "item") and not consts or all(w == ":" for w in words):
            # its truth
            if is_call(t, "isinstance"):
                return None
            if t.op == "item" and is_call(t.args[0], ".partition"):
                return kind != "blank"
            return kind != "blank" if is_call(t, ".strip", ".rstrip") else None
        return None

    def items_of(self, eng, st, v):
        if v.op == "call":
            h = self.handle(v)
            if h == "cpuinfo" and v.args[0] in OPEN + THROUGH and v.args[0] not in (".read", ".strip") and \
                    self.config["cpuinfo"] == "ok":
                return tuple(sym("line:%d:%s" % (i, k), "bytes") for i, k in enumerate(self.lines))
            if v.args[0] == "range" and self.config["ifaces"] == "ok" and len(v.args[2]) == 3 and any(
                    is_call(x, "fcntl.ioctl") for x in subterms(v)) and const_of(v.args[2][0]) == 0 and \
                    const_of(v.args[2][2]) == 40 and self.length(v.args[2][1]):
                return tuple(sym("record:%d" % i, "int") for i in range(RECORDS))
        return None

    def length(self, t):
        """The number of bytes the system call gave."""
        return t.op == "item" and const_of(t.args[1]) == 0 and is_call(t.args[0], "struct.unpack") and any(
            is_call(x, "fcntl.ioctl") for x in subterms(t))

    def iter_raises(self, eng, st, it):
        h = self.handle(it)
        return "OSError" if h and self.config[h] == "read" else False

    def call(self, eng, st, name, base, args, kwargs, node):
        if not isinstance(name, str):
            return None
        if name in OPEN:
            t = call(name, None, tuple(args), tuple(kwargs), eng.uid(st, node))
            how = self.config.get(FILES.get(path_of(t)), "ok")
            if how in ("absent", "unreadable"):
                return [self.exc(eng, st, node, "OSError")]
            return [("ret", st.setmon(open=st.mon.get("open", frozenset()) | {t}), t)]
        if name in ("os.path.exists", "os.path.isfile", "os.path.lexists", "os.access") and args and is_const(args[0]):
            how = self.config.get(FILES.get(const_of(args[0])), "ok")
            return [("ret", st, const(how != "absent" if name != "os.access" else how in ("ok", "read")))]
        if base is not None and self.handle(base) and name in (".read", ".readline", ".readlines", ".readinto") and is_call(base, *OPEN):
            if self.config[self.handle(base)] == "read":
                return [self.exc(eng, st, node)]
        if name in (".close", ".__exit__") and base is not None:
            gone = {base} | set(x for x in subterms(base) if is_call(x, "socket.socket", *OPEN)) if is_call(
                base, "contextlib.closing") else {base}
            return [("ret", st.setmon(open=st.mon.get("open", frozenset()) - gone), NONE)]
        if name in (".detach", "os.fdopen"):
            return None
        if name == "socket.socket":
            if self.config["ifaces"] == "socket":
                return [self.exc(eng, st, node, "Exception")]
            t = call(name, None, tuple(args), tuple(kwargs), eng.uid(st, node))
            return [("ret", st.setmon(open=st.mon.get("open", frozenset()) | {t}), t)]
        if name in (".partition", ".split") and base is not None and args and const_of(args[0]) in (b":", ":") and (
                name == ".partition" or [const_of(a) for a in list(args[1:]) + [a for k, a in kwargs]] == [1]):
            line = self.line_in(base)
            b, low = base, False
            while b is not line and b.op == "call" and b.args[0] in (".strip", ".rstrip", ".lower", ".decode", ".lstrip"):
                low = low or b.args[0] == ".lower"
                b = b.args[1]
            if line is not None and b is line:
                kind = self.kind(line)
                text = isinstance(const_of(args[0]), str)

                def put(c):
                    c = c.lower() if low else c
                    return const(c.decode("latin1") if text else c)
                parts = (put(NAMES[kind]), put(b":"), sym("value:" + line.args[0], "str" if text else "bytes"))
                if kind == "blank":
                    parts = (parts[0],) if name == ".split" else (parts[0], put(b""), put(b""))
                elif name == ".split":
                    parts = parts[::2]
                if name == ".partition":
                    return [("ret", st, mk("tuple", parts))]
                s, v = eng.new(st, HObj("list", items=parts), node)
                return [("ret", s, v)]
        if self.config.get("distro", "ok") != "ok" and name.startswith(("distro.", "platform.")):
            return [self.exc(eng, st, node, "Exception")]
        if name == "array.array":
            n = len(const_of(args[1])) if len(args) > 1 and is_const(args[1]) and isinstance(const_of(args[1]), bytes) else -1
            return [("ret", st, sym("buffer:%d" % n))]
        if name in (".tobytes", ".tostring") and base is not None and base.op == "sym" and str(base.args[0]).startswith("buffer:"):
            return [("ret", st, sym("filled" if st.mon.get("ioctl") else "not filled", "bytes"))]
        if name == "fcntl.ioctl":
            if self.config["ifaces"] == "ioctl":
                return [self.exc(eng, st, node, "Exception")]
            ok = len(args) > 2 and const_of(args[1]) == 0x8912 and is_call(args[2], "struct.pack")
            if ok:
                size, pointer = [self.info(x) for x in args[2].args[2][1:3]]
                ok = size == 1 and pointer == 0
            return [("ret", st.setmon(ioctl=1, odd=not ok), call(name, None, tuple(args), tuple(kwargs), eng.uid(st, node)))]
        return None

    def info(self, t):
        if t.op == "item" and is_call(t.args[0], ".buffer_info") and is_const(t.args[1]):
            return cval(t.args[1])
        if is_const(t) or t.op == "sym":
            return None
        return None


def near(t, words):
    """Whether a test that is true of the line of the revision is true of one named 'CPU revision'; None: not known."""
    if t.op == "cmp" and t.args[0] in ("in", "notin"):
        return t.args[0] == "in"
    if is_call(t, ".endswith", ".find", ".index", ".count"):
        return True
    if t.op == "call" and (t.args[0].startswith("re.") or t.args[0] in (".match", ".search", ".fullmatch")):
        p = [w for w in words if "revision" in w][0]
        how = t.args[0].split(".")[-1]
        try:
            return bool(getattr(re, how)(p, "CPU revision\t: 4\n", re.I)) if how in ("match", "search", "fullmatch") else None
        except re.error:
            return None
    return False


def extent(t, lo=None, hi=None):
    """(base, start, stop) of nested slices, with linear bounds."""
    if t.op != "slice":
        return None
    parts = t.args[1:]
    if len(parts) == 1 and parts[0].op == "tuple":
        parts = parts[0].args[0]
    a, b = parts[0], parts[1]
    a = {} if a is None or a is NONE else poly(a)
    if b is None or b is NONE:
        return None
    b = poly(b)
    if a.get(None, 0) < 0 or b.get(None, 0) < 0:
        return None
    inner = extent(t.args[0])
    if inner is None:
        return t.args[0], a, b
    base, s, e = inner

    def add(x):
        r = dict(s)
        for k, v in x.items():
            r[k] = r.get(k, 0) + v
        return {k: v for k, v in r.items() if v}

    return base, add(a), add(b)


def empty(eng, s, v):
    if is_const(v):
        return not cval(v)
    k = eng.known_items(s, v) if v.op == "ref" else v.args[0] if v.op == "tuple" else None
    return k == ()


def mentions(s, eng, v, names, seen=()):
    """v is made from a result of one of these."""
    if any(is_call(x, *names) for x in subterms(v)):
        return True
    for x in subterms(v):
        if x.op == "ref" and x not in seen:
            o = eng.obj(s, x)
            if o is not None:
                vs = list(o.items.values()) if isinstance(o.items, dict) else list(o.items or ())
                if any(mentions(s, eng, y, names, tuple(seen) + (x,)) for y in vs + list(o.taint)):
                    return True
    return False


def revision(v):
    """The line this is the value of; None for others."""
    while v.op == "call" and v.args[0] in (".decode", ".strip", ".lower", ".rstrip", ".lstrip", "str", ".upper", ".split", ".rsplit"):
        if v.args[0] in (".split", ".rsplit"):
            return None
        nxt = v.args[1] if v.args[1] is not None else v.args[2][0]
        v = nxt
    if v.op == "sym" and str(v.args[0]).startswith("value:"):
        return v
    if v.op == "item" and is_call(v.args[0], ".partition", ".rpartition", ".split", ".rsplit") and const_of(v.args[1]) in (
            (2, -1) if is_call(v.args[0], ".partition", ".rpartition") else (1, -1)):
        c = v.args[0]
        b = c.args[1]
        while b is not None and b.op == "call" and b.args[0] in (".strip", ".lower", ".decode", ".rstrip", ".lstrip"):
            b = b.args[1]
        return b
    return None


def run(ctx):
    ctx.rule("the collector of metadata is followed under every combination of sources that are absent, unreadable, failing while "
             "read or failing to be listed: it always returns a dict of all six values; what is missing is empty; what is there "
             "comes from its own source; every file and socket is closed on every path")
    ctx.rule("the revision is the value of a line of /proc/cpuinfo named revision, for every sequence of up to three lines (without "
             "a name, with another name, with one that ends in the word, with that name), and empty only when no line has that name")
    ctx.rule("the addresses are bytes 20 to 24 of every 40 byte record in the buffer the system call filled")
    ctx.assume("reading a file fails with OSError, listing the interfaces with any Exception; distro and platform do not raise; "
               "names are decoded without error; pointers have 8 bytes")
    where = MODULE + ":get_meta"
    for combo in product(*[FAULTS[k] for k in sorted(FAULTS)]):
        config = dict(zip(sorted(FAULTS), combo))
        lines = [()] + [ls for n in (1, 2, 3) for ls in product(LINES, repeat=n)] if set(combo) == {"ok"} else [("other", "revision")]
        for ls in lines:
            one(ctx, where, config, ls)
    later(ctx, where)
    ctx.need("configurations", 20)
    ctx.need("paths", 40)


ENGINE = {}


def one(ctx, where, config, lines):
    what = ", ".join("%s %s" % (k, v) for k, v in sorted(config.items()) if v != "ok") or "lines %s" % (" ".join(lines) or "none")
    ctx.count("configurations")
    if ctx not in ENGINE:
        mon = Sources()
        ENGINE[ctx] = mon, ctx.engine(mon)
    mon, eng = ENGINE[ctx]
    mon.config, mon.lines = config, lines
    st = eng.start(MODULE)
    f = mk("func", eng.find_func("get_meta", MODULE), None)
    out = eng.invoke(st, f, ())
    for s, x in out.raises:
        ctx.bad("collecting metadata never fails", where, "%s is raised with %s" % (x[0], what), s.path(), key="raises %s" % sorted(
            k for k, v in config.items() if v != "ok"))
    ctx.check(not out.exits, "collecting metadata never fails", where, "the process may end")
    ctx.check(bool(out.rets), "collecting metadata never fails", where, "nothing is returned with %s" % what)
    for s, v in list(out.rets) + [(s, None) for s, x in out.raises]:
        ctx.count("paths")
        left = s.mon.get("open", frozenset())
        ctx.check(not left, "files and sockets are closed", where, "with %s, %s stays open" % (what, ", ".join(sorted(
            "%s(%s)" % (h.args[0], path_of(h) or "") for h in left))), s.path(), key="open %s" % sorted(h.args[0] for h in left))
        if v is None:
            continue
        first = values(ctx, eng, s, v, where, what, config, lines)
        again = eng.invoke(s, f, ())
        for s2, x in again.raises:
            ctx.bad("collecting metadata never fails", where, "%s is raised the second time" % x[0], s2.path(), key="again raises")
        for s2, w in again.rets:
            o = eng.obj(s2, w) if w.op == "ref" else None
            second = {k: o.items.get(const(k)) for k in KEYS} if o is not None and o.kind == "dict" else None
            if o is not None and o.kind == "dict" and second is not None and None not in second.values():
                second = values(ctx, eng, s2, w, where, what + " the second time", config, lines)
            else:
                ctx.bad("metadata collected before is given again", where, "the second result is another", s2.path(), key="again")


def later(ctx, where):
    """Collecting fails once in a way that is not foreseen; then it works."""
    mon, eng = ENGINE[ctx]
    mon.config = dict({k: "ok" for k in FAULTS}, distro="fail")
    mon.lines = ("revision",)
    f = mk("func", eng.find_func("get_meta", MODULE), None)
    out = eng.invoke(eng.start(MODULE), f, ())
    states = [s for s, v in out.rets] + [s for s, x in out.raises]
    for s in states:
        ctx.check(not s.mon.get("open"), "files and sockets are closed", where, "something stays open", s.path())
    mon.config = {k: "ok" for k in FAULTS}
    for s in states:
        for s2, v in eng.invoke(s, f, ()).rets:
            ctx.count("later")
            values(ctx, eng, s2, v, where, "collected after a failure", mon.config, mon.lines, late=not any(s is x for x, _ in out.raises))


def values(ctx, eng, s, v, where, what, config, lines, late=False):
    o = eng.obj(s, v) if v.op == "ref" else None
    if not ctx.check(o is not None and o.kind == "dict", "metadata is a dict of all values", where, "%s is returned" % v, s.path()):
        return None
    for k in sorted(KEYS):
        if not ctx.check(const(k) in o.items, "metadata is a dict of all values", where, "there is no %s with %s" % (k, what), s.path(),
                         key="missing %s" % k):
            continue
        x = o.items[const(k)]
        src = KEYS[k]
        how = config.get(src, "ok")
        blank = empty(eng, s, x)
        if how != "ok":
            if how != "read" or blank:
                ctx.check(blank, "what is missing is empty", where, "%s is %s with %s" % (k, str(x)[:100], what), s.path(),
                          key="empty %s" % k)
                if k == "ip_list" and blank:
                    ctx.check(x.op in ("ref", "tuple"), "what is missing is empty", where, "the empty list of addresses is %s" % x,
                              s.path(), key="empty list")
            continue
        if k == "agent_version":
            want = eng.global_value("dataplicity._version", "__version__")
            good = x is want or is_const(x) and is_const(want) and cval(x) == cval(want)
        elif late and k in ("uname", "os_version"):
            good = True
        elif k == "uname":
            good = mentions(s, eng, x, ("platform.uname", "os.uname", "platform.platform"))
        elif k == "os_version":
            good = mentions(s, eng, x, ("distro.name", "distro.linux_distribution", "distro.info")) and mentions(
                s, eng, x, ("distro.version", "distro.linux_distribution", "distro.info"))
        elif k == "model_name":
            good = any(is_call(y, ".read", ".readline", ".readlines") and path_of(handle_of(y) or NONE_CALL) == MODEL for y in subterms(x)) \
                or any(is_call(y, *OPEN) and path_of(y) == MODEL for y in subterms(x))
        elif k == "machine_revision":
            have = "revision" in lines
            if not have:
                good = blank
            else:
                line = revision(x)
                unsure = line is None and not blank and any(y.op == "sym" and str(y.args[0]).endswith(":revision") for y in subterms(x))
                good = unsure or line is not None and str(line.args[0]).endswith(":revision")
        else:
            good = addresses(ctx, eng, s, x, where, what)
        ctx.check(good, "what is there is collected", where, "%s is %s with %s" % (k, str(x)[:160], what), s.path(), key="value %s" % k)
    return True


NONE_CALL = call("open", None, (NONE,), (), None)


def addresses(ctx, eng, s, x, where, what):
    ctx.check(not s.mon.get("odd"), "the list of interfaces is asked for correctly", where,
              "the system call is not given the size and address of the buffer", s.path())
    items = eng.known_items(s, x)
    if items is None:
        o = eng.obj(s, x) if x.op == "ref" else None
        items = list(o.taint) if o is not None else []
        if not items:
            return any(is_call(y, "fcntl.ioctl") for k in s.facts for y in subterms(k)) or mentions(s, eng, x, ("socket.inet_ntoa", "socket.inet_ntop"))
        exact = False
    else:
        exact = True
        ranged = len(items) == RECORDS or any(y.op == "sym" and str(y.args[0]).startswith("record:") for i in items for y in subterms(i))
        if not items:
            return any(is_call(y, "fcntl.ioctl") for k in s.facts for y in subterms(k))
        if ranged and len(items) != RECORDS:
            return False
        exact = ranged
    for i, v in enumerate(items):
        if is_call(v, ".decode", "str"):
            v = v.args[1] or v.args[2][0]
        if not is_call(v, "socket.inet_ntoa", "socket.inet_ntop"):
            return mentions(s, eng, v, ("socket.inet_ntoa", "socket.inet_ntop")) and not exact
        raw = v.args[2][-1]
        e = extent(raw)
        if any(y.op == "sym" and y.args[0] == "not filled" for y in subterms(raw)):
            return False
        if e is None:
            continue
        base, a, b = e
        for y in list(a) + list(b):
            if y is not None and y.op == "elem" and is_call(y.args[0], "range"):
                r = y.args[0].args[2]
                if len(r) != 3 or const_of(r[0]) != 0 or const_of(r[2]) != 40:
                    return False
        if exact:
            r = sym("record:%d" % i, "int")
            if base.op != "sym" or base.args[0] != "filled" or a != {r: 1, None: 20} or b != {r: 1, None: 24}:
                return False
    return True
