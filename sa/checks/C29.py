"""C29: a directory scan is complete to its depth, hides hidden entries and terminates."""

from ..terms import T, mk, const, is_const, cval, is_call, call, subterms, sym, NONE
from ..engine import Monitor
from ..program import AnalysisError
from ..world import is_log
from ..state import HObj
from .. import linear

TECHNIQUE = ("abstract interpretation of the scan with the list of open directories, the result and the set of visited directories "
             "opaque: per directory entry, what was listed, entered and marked against what is known of it on the path")
MODULE = "dataplicity.scan_directory"
FILE = "dataplicity/scan_directory.py"
HIDDEN = "hidden entries are neither listed nor entered"
LISTED = "every visible file and directory within the depth is listed under its own directory"
DEPTH = "no directory beyond the depth limit is entered, and only those beyond it are left out"
ONCE = "a directory is entered only if it has not been visited, and is marked as visited"
SIZE = "the size is that of the file, or -1 exactly if it is not wanted or not available"
FAULT = "a directory or entry that cannot be examined is skipped and the scan goes on"
ENDS = "a directory that is read to its end, or cannot be read on, is left"
SCANS = ("os.scandir", "scandir.scandir")
ROOT, SIZES, LIMIT = sym("root_path"), sym("file_sizes"), sym("max_depth")


class Scan(Monitor):

    def rettype(self, name, t):
        return {".inode": "int", ".is_dir": "bool", ".is_file": "bool"}.get(name)

    def __init__(self, ctx):
        self.ctx = ctx
        self.root = None
        self.layout = set()
        self.counted = {}
        self.steps = set()
        self.wanted = []

    # ------------------------------------------------------------ the world
    def raises(self, eng, st, name, base, args, kwargs):
        if is_log(name, base) or name.startswith(("time.", "os.path.")) or name == "str":
            return []
        return None

    def fail(self, eng, st, node, name="OSError"):
        return ("raise", st, (name, True, frozenset(), mk("exc", name, True, eng.site(st, node), None)))

    def call(self, eng, st, name, base, args, kwargs, node):
        where = eng.loc(st, node)
        if name in SCANS:
            return self.scan(eng, st, args[0] if args else const("."), where, node)
        if name in ("next", ".__next__", ".next") and (args or base is not None):
            it = args[0] if args else base
            st = self.judge(eng, st, where)
            if st is None:
                return []
            e = call("entry", None, (it,), (), "e")
            s = self.begin(eng.purge(st, e))
            end = st.setmon(entry=None, ended=1)
            end = eng.purge(end, e)
            res = [("ret", s, e), self.fail(eng, end, node)]
            if len(args) > 1:
                return res + [("ret", end, args[1])]
            return res + [self.fail(eng, end, node, "StopIteration")]
        if base is not None and self.is_entry(base) and name in (".is_dir", ".is_file", ".stat", ".inode"):
            t = call(name, base, (), tuple(kwargs), None)
            res = [("ret", st, t)]
            if name != ".inode":
                res.append(self.fail(eng, st.setmon(failed=st.mon.get("failed", frozenset()) | {name}), node))
            return res
        if base is None:
            return None
        o = eng.obj(st, base) if base.op == "ref" else None
        if name in (".append", ".appendleft") and args and self.is_work(eng, st, args[0]):
            if name != ".append" or o is None:
                self.ctx.bad(DEPTH, where, "a directory is not put at the end of the open ones", st.path(), key="order")
            return [("ret", self.push(eng, st, base, args[0], where), NONE)]
        if name == ".pop" and st.mon.get("work") == base:
            if args and not (is_const(args[0]) and cval(args[0]) == -1):
                self.ctx.bad(DEPTH, where, "a directory is taken from the start of the open ones", st.path(), key="order")
            top = self.top(base)
            s = self.forget(eng, st, base)
            ended = st.mon.get("ended")
            s = s.setmon(popped=st.mon.get("popped", 0) + (0 if ended else 1), ended=None)
            return [("ret", s, call("top", base, (), (), "t~"))] if ended is not None or True else None
        if name == ".add" and args and o is not None and o.kind == "set":
            return [("ret", self.mark(eng, st, base, args[0], o), NONE)]
        if o is not None and o.kind == "dict" and base == st.mon.get("dirs") and name in (".get", ".setdefault") and args:
            s = self.info(eng, st, base, args[0], args[1] if len(args) > 1 else NONE, where) if name == ".setdefault" and not self.own(
                st, args[0]) else st
            return [("ret", s, call("info", None, (base, args[0]), (), None))]
        if is_call(base, "info") and name in (".setdefault", ".get") and args and is_const(args[0]):
            return [("ret", st, call("list", None, (base, args[0]), (), None))]
        if is_call(base, "list") and name in (".append", ".extend", ".insert") and args:
            x = args[-1]
            if name == ".extend":
                xs = eng.known_items(st, x)
                if xs is None or len(xs) != 1:
                    return None
                x = xs[0]
            return [("ret", self.record(eng, st, base, x, where), NONE)]
        return None

    def getitem(self, eng, st, b, k, node, out):
        if b == st.mon.get("work"):
            if is_const(k) and cval(k) == -1:
                return [(st, self.top(b))]
            return [(st, call("other", None, (b, k), (), eng.uid(st, node)))]
        if b == st.mon.get("dirs"):
            return [(st, call("info", None, (b, k), (), None))]
        if is_call(b, "info") and is_const(k):
            return [(st, call("list", None, (b, k), (), None))]
        return None

    def setitem(self, eng, st, b, k, v, node, out):
        o = eng.obj(st, b) if b.op == "ref" else None
        if is_call(b, "info"):
            xs = eng.known_items(st, v)
            if xs is None:
                return None
            for x in xs:
                st = self.record(eng, st, call("list", None, (b, k), (), None), x, eng.loc(st, node))
            return [st]
        w = eng.obj(st, v) if v.op == "ref" else None
        if o is not None and o.kind == "dict" and w is not None and w.kind == "dict" and st.mon.get("dirs") in (None, b) \
                and self.ispath(k):
            return [self.info(eng, st, b, k, v, eng.loc(st, node))]
        return None

    def decide(self, eng, st, t):
        if self.is_entry(t):
            return True
        if t.op == "cmp" and t.args[0] in ("eq", "is") and any(self.is_entry(x) for x in t.args[1:]) and any(
                is_const(x) for x in t.args[1:]):
            return False
        return None

    def backedge(self, eng, st, node):
        """What has been done with the entry is right already: the rest of the path does not matter."""
        if st.mon.get("entry") and not st.mon.get("popped") and self.wrong(eng, st) is None:
            return self.begin(st).setmon(entry=None)
        return st

    def iterate(self, eng, st, it, el, node):
        if self.is_entry(el):
            st = self.judge(eng, st, eng.loc(st, node))
            return None if st is None else self.begin(st).setmon(each=1)
        return st

    # ------------------------------------------------------------- the terms
    @staticmethod
    def top(l):
        return call("top", l, (), (), "t")

    def forget(self, eng, st, l):
        st = eng.purge(st, self.top(l))
        o = eng.obj(st, l)
        st = st.setobj(l.args[0], o.with_(items=None, taint=frozenset())).setmon(work=l)
        return eng.mutated(st, l)

    @staticmethod
    def is_entry(t):
        return is_call(t, "entry") or t.op == "elem" and t.args[0].op == "item" and is_call(t.args[0].args[0], "top")

    @staticmethod
    def iterator(e):
        return e.args[2][0] if is_call(e, "entry") else e.args[0]

    def entries(self, t):
        return [x for x in subterms(t) if self.is_entry(x)]

    def parts(self, t):
        """A path as the terms that are joined; empty ones left out."""
        if is_call(t, "os.path.join"):
            return [y for x in t.args[2] for y in self.parts(x)]
        if is_const(t) and cval(t) in ("", b""):
            return []
        if t.op == "fmt" and all(is_const(x) and cval(x) == "/" for x in t.args[0][1::2]):
            return [y for x in t.args[0][::2] for y in self.parts(x)]
        if is_call(t, "os.fsdecode", "str", "os.fspath", "os.path.normpath") and t.args[2]:
            return self.parts(t.args[2][0])
        if is_call(t, "os.path.relpath") and len(t.args[2]) == 2:
            a, b = self.parts(t.args[2][0]), self.parts(t.args[2][1])
            if b and a[:len(b)] == b:
                return a[len(b):]
        return [t]

    def ispath(self, t):
        ps = self.parts(t)
        return not ps or any(p.op in ("item", "attr", "call") for p in ps)

    def own(self, st, p):
        """p is the path of an open directory."""
        ps = self.parts(p)
        return len(ps) == 1 and ps[0].op == "item" and is_call(ps[0].args[0], "top")

    def of(self, e, p):
        """p is the path of the directory that e was read from."""
        it = self.iterator(e)
        ps = self.parts(p)
        if it.op == "item" and is_call(it.args[0], "top"):
            return len(ps) == 1 and ps[0].op == "item" and ps[0].args[0] == it.args[0] and is_const(ps[0].args[1]) and (
                cval(ps[0].args[1]), cval(it.args[1])) in self.layout
        if is_call(it, "scan"):
            return self.below(self.parts(it.args[2][0])) == ps
        return False

    def below(self, ps):
        return ps[1:] if ps and ps[0] == self.root else None

    def named(self, t, e):
        return t.op == "attr" and t.args[1] == "name" and t.args[0] == e

    def is_work(self, eng, st, v):
        if v.op in ("tuple", "nt"):
            xs = eng.known_items(st, v)
        elif v.op == "ref" and eng.obj(st, v).kind == "list" and eng.obj(st, v).items is not None:
            xs = eng.obj(st, v).items
        else:
            xs = [v]
        return any(is_call(x, "scan") or is_call(x, "top") or x.op == "item" and is_call(x.args[0], "top") for x in xs)

    # ------------------------------------------------------------- the events
    @staticmethod
    def begin(st):
        return st.setmon(entry=1, entered=None, listed=None, marked=None, pushed=0, infoed=0, failed=frozenset(), ended=None,
                         absent=frozenset(), popped=0)

    def current(self, eng, st):
        return st.mon.get("entry")

    def scan(self, eng, st, p, where, node):
        r = self.ctx
        ps = self.parts(p)
        es = self.entries(p)
        r.count("scans")
        t = call("scan", None, (p,), (), None)
        if not es:
            if self.root is None and len(ps) == 1:
                self.root = ps[0]
            r.check(ps == [self.root] and not self.current(eng, st), LISTED, where, "%s is read, which is not the directory to scan" % p,
                    st.path(), key="root")
            isdir = any(v is True and is_call(k, "os.path.isdir") and self.parts(k.args[2][0]) == [self.root] for k, v in st.facts.items())
            return [("ret", st, t), self.fail(eng, st if isdir else st.setmon(norx=1), node)]
        e = es[0]
        rel = self.below(ps)
        r.check(rel is not None and self.named(ps[-1], e) and rel[:-1] == self.parts_of(e), LISTED, where,
                "%s is read, which is not the path of the entry" % p, st.path(), key="path")
        r.check(self.hidden(st, e) is False, HIDDEN, where, "a directory is entered that may be hidden", st.path(), key="hidden enter")
        r.check(self.fact(st, call(".is_dir", e, (), (), None)) is True, LISTED, where, "an entry is entered that may not be a directory",
                st.path(), key="nodir")
        self.depth(eng, st, e, where)
        st = st.setmon(absent=st.mon.get("absent", frozenset()) | self.absent(eng, st, e), entered=1)
        r.count("entered")
        return [("ret", st, t), self.fail(eng, st.setmon(entered=2), node)]

    def parts_of(self, e):
        it = self.iterator(e)
        if it.op == "item" and is_call(it.args[0], "top"):
            for i, j in self.layout:
                if is_const(it.args[1]) and j == cval(it.args[1]):
                    return [mk("item", it.args[0], const(i))]
            return None
        return self.below(self.parts(it.args[2][0])) if is_call(it, "scan") else None

    def depth(self, eng, st, e, where):
        for d, k in self.depths(eng, st, e):
            if self.limited(eng, st, d, 1):
                self.wanted.append(k)
                self.ctx.ok(DEPTH, where)
                return
        self.ctx.bad(DEPTH, where, "a directory is entered although the limit may have been reached", st.path(), key="depth")

    def depths(self, eng, st, e):
        """How deep the directory of e lies, the scanned one being at 1."""
        l = st.mon.get("work")
        if l is not None:
            n = call("len", None, (l,), (), None)
            yield mk("bin", "+", n, const(st.mon.get("popped", 0))), None
        it = self.iterator(e)
        if it.op == "item":
            for k, c in self.counted.items():
                yield mk("bin", "+", mk("item", it.args[0], const(k)), const(1 - c)), k

    def limited(self, eng, st, d, n):
        """d + n <= limit is known (integers)."""
        if eng.decide(st, eng.mkeq(LIMIT, NONE)) is True:
            return True
        return linear.by_facts(st, mk("cmp", "lt", mk("bin", "+", d, const(n - 1)), LIMIT)) is True

    def beyond(self, eng, st, e):
        return any(linear.by_facts(st, mk("cmp", "le", LIMIT, d)) is True for d, k in self.depths(eng, st, e))

    def identity(self, x, e):
        if is_call(x, ".inode") and x.args[1] == e:
            return True
        if x.op == "attr" and x.args[1] == "st_ino" and is_call(x.args[0], ".stat") and x.args[0].args[1] == e:
            return True
        if x.op == "tuple":
            return any(self.identity(y, e) for y in x.args[0])
        return is_call(x, "os.path.realpath") and e in subterms(x)

    def absent(self, eng, st, e):
        r = set()
        for k, v in st.facts.items():
            if v is False and k.op == "cmp" and k.args[0] == "in" and k.args[2].op == "ref" and self.identity(k.args[1], e):
                r.add(k.args[2].args[0])
        for env in st.frames.values():
            for v in env.values():
                if isinstance(v, T) and v.op == "ref":
                    o = eng.obj(st, v)
                    if o is not None and o.kind == "set" and o.items == ():
                        r.add(v.args[0])
        return frozenset(r)

    def mark(self, eng, st, base, x, o):
        es = self.entries(x)
        if es and self.identity(x, es[0]):
            st = st.setmon(absent=st.mon.get("absent", frozenset()) | self.absent(eng, st, es[0]), marked=base.args[0])
        st = st.setobj(base.args[0], o.with_(items=None, taint=frozenset()))
        return eng.mutated(st, base)

    def push(self, eng, st, l, v, where):
        r = self.ctx
        xs = eng.known_items(st, v) if v.op in ("tuple", "nt") else eng.obj(st, v).items if v.op == "ref" else (v,)
        scans = [(i, x) for i, x in enumerate(xs) if is_call(x, "scan")]
        if not scans:
            return self.forget(eng, st, l).setmon(popped=st.mon.get("popped", 0) - 1)
        j, sc = scans[0]
        rel = self.below(self.parts(sc.args[2][0]))
        found = [i for i, x in enumerate(xs) if i != j and self.parts(x) == rel and (rel or is_const(x))]
        r.check(found, LISTED, where, "an open directory is kept with another path", st.path(), key="kept path")
        for i in found:
            self.layout.add((i, j))
        e = self.entries(sc)
        for k, x in enumerate(xs):
            if not e and is_const(x) and isinstance(cval(x), int):
                self.counted[k] = cval(x)
            if e and self.iterator(e[0]).op == "item":
                d = linear.sub(linear.poly(x), linear.poly(mk("item", self.iterator(e[0]).args[0], const(k))))
                if d == {None: 1}:
                    self.steps.add((k, True))
                elif k not in (i for i, _ in self.layout) and k != j:
                    self.steps.add((k, False))
        return self.forget(eng, st, l).setmon(pushed=1)

    def info(self, eng, st, d, k, v, where):
        ps = self.parts(k)
        es = self.entries(k)
        if es:
            self.ctx.check(self.named(ps[-1], es[0]) and ps[:-1] == self.parts_of(es[0]), LISTED, where,
                           "the result has a place for %s, which is not the path of an entry" % k, st.path(), key="info path")
        else:
            self.ctx.check(not ps or self.own(st, k), LISTED, where, "the result has a place for %s, which is not a directory's path" % k,
                           st.path(), key="info path")
        st = st.setobj(d.args[0], eng.obj(st, d).with_(items={}, rest=True, taint=frozenset()))
        return eng.mutated(st, d).setmon(dirs=d, infoed=1)

    def record(self, eng, st, l, x, where):
        r = self.ctx
        info, kind = l.args[2]
        kind = cval(kind)
        p = info.args[2][1]
        es = self.entries(x)
        if not es:
            return st
        e = es[0]
        r.count("listed")
        r.check(self.of(e, p), LISTED, where, "an entry is listed under another directory than its own", st.path(), key="own")
        r.check(self.hidden(st, e) is False, HIDDEN, where, "an entry is listed that may be hidden", st.path(), key="hidden list")
        isdir = self.fact(st, call(".is_dir", e, (), (), None))
        if kind == "dirs":
            r.check(isdir is True and self.named(x, e), LISTED, where, "%s is listed as a directory" % x, st.path(), key="dirs")
        elif kind == "files":
            r.check(isdir is not True, LISTED, where, "a directory is listed as a file", st.path(), key="files")
            xs = eng.known_items(st, x) or ()
            r.check(len(xs) == 2 and self.named(xs[0], e), LISTED, where, "%s is listed as a file" % x, st.path(), key="name")
            if len(xs) == 2:
                size, want = xs[1], self.fact(st, SIZES)
                stat = call(".stat", e, (), (), None)
                true = want is True and (size == mk("attr", stat, "st_size") or is_call(size, "os.path.getsize"))
                none = is_const(size) and cval(size) == -1 and (want is False or ".stat" in st.mon.get("failed", ()))
                r.check(true or none, SIZE, where, "a file is listed with the size %s, sizes %s" % (
                    size, {True: "wanted and available", False: "not wanted"}.get(want, "wanted or not")), st.path(), key="size")
        else:
            r.bad(LISTED, where, "an entry is listed under %r" % kind, st.path(), key="kind")
        if st.mon.get("listed"):
            r.bad(LISTED, where, "an entry is listed twice", st.path(), key="twice")
        return st.setmon(listed=kind)

    # ------------------------------------------------------------- the verdict
    @staticmethod
    def fact(st, t):
        v = st.facts.get(t)
        if v is None:
            for k, x in st.facts.items():
                if k.op == "cmp" and k.args[0] in ("eq", "is") and t in k.args[1:]:
                    o = k.args[2] if k.args[1] == t else k.args[1]
                    if is_const(o) and isinstance(cval(o), bool):
                        return cval(o) == x
        return v if v in (True, False) else None

    def hidden(self, st, e):
        name = mk("attr", e, "name")
        for k, v in st.facts.items():
            if is_call(k, ".startswith") and k.args[1] == name and k.args[2] == (const("."),):
                return v
            if k.op == "cmp" and k.args[0] == "eq":
                for a, b in ((k.args[1], k.args[2]), (k.args[2], k.args[1])):
                    if is_const(b) and cval(b) == "." and a != name and name in subterms(a) and a.op in ("item", "slice", "sl", "call"):
                        return v
        return None

    def judge(self, eng, st, where):
        r = self.ctx
        m = st.mon
        if m.get("ended") and not m.get("each"):
            r.bad(ENDS, where, "a directory is read again after its end: the scan never completes", st.path(), key="ended")
            return None
        if m.get("popped", 0) > 0 and not m.get("each"):
            r.bad(LISTED, where, "a directory is left before its end", st.path(), key="left")
        r.ok(LISTED, where)
        if m.get("entry"):
            w = self.wrong(eng, st)
            if w is not None:
                r.bad(w[0], where, w[1], st.path(), key=w[2])
        return st

    def wrong(self, eng, st):
        m = st.mon
        self.ctx.count("entries")
        e = self.last(st)
        if m.get("entered"):
            if m.get("marked") is None or m["marked"] not in m.get("absent", ()):
                return ONCE, "a directory is entered that may have been visited before, or is not marked as visited", "once"
            if m["entered"] == 1 and not m.get("pushed"):
                return LISTED, "a directory is opened, but never read", "pushed"
            if m["entered"] == 1 and not m.get("infoed"):
                return LISTED, "a directory is opened, but has no place in the result", "infoed"
            if m.get("listed") != "dirs":
                return LISTED, "a directory is entered, but not listed", "entered only"
            return None
        if m.get("listed") == "dirs":
            if e is None or not self.beyond(eng, st, e):
                return LISTED, "a directory is listed, but not entered", "listed only"
            return None
        if m.get("listed"):
            return None
        if e is None:
            return LISTED, "an entry is left out", "left out"
        isdir = self.fact(st, call(".is_dir", e, (), (), None))
        isfile = self.fact(st, call(".is_file", e, (), (), None))
        failed = m.get("failed", ())
        visited = any(v is True and k.op == "cmp" and k.args[0] == "in" and self.identity(k.args[1], e) for k, v in st.facts.items())
        nodir = isdir is False or ".is_dir" in failed
        nofile = isfile is False or ".is_file" in failed
        if self.hidden(st, e) or isdir is True and (visited or self.beyond(eng, st, e)) or nodir and nofile:
            return None
        return (DEPTH, "a directory is left out that may be within the limit and not have been visited", "left out dir") if isdir is True \
            else (LISTED, "an entry is left out that may be a visible file", "left out")

    def last(self, st):
        for k in st.facts:
            for x in subterms(k):
                if self.is_entry(x) and not (is_call(x, "entry") and str(x.args[4]).endswith("~")):
                    return x
        return None


def run(ctx):
    ctx.rule("scan_directory is analysed with any root, depth limit and wish for sizes, every file system call failing or not, and the "
             "list of open directories, the result and the visited set unknown: for the entry read last, by the facts of the path, it is "
             "listed or entered only if not hidden; left out only if hidden, neither file nor directory, visited, or a directory at "
             "the limit (linear arithmetic over the number of open directories, which is the depth because directories are put to "
             "and taken from the end only); listed under the path its directory was opened with; entered only if absent from the set it "
             "is added to; a directory is read no more after its end or an error and none is left before; the scan ends only when none "
             "is open; it raises only for a root that is no directory")
    ctx.assume("the inode number of an entry can always be had; all directories are on one file system; the file system is "
               "finite and does not grow for ever during the scan")
    mon = Scan(ctx)
    eng = ctx.engine(mon)
    st = eng.start(MODULE)
    qual = MODULE + ":scan_directory"
    if qual not in eng.funcs:
        raise AnalysisError("no function scan_directory")
    params = [a.arg for a in eng.funcs[qual].node.args.args]
    vals = {"root_path": ROOT, "file_sizes": SIZES, "max_depth": LIMIT}
    if set(params) != set(vals):
        raise AnalysisError("scan_directory takes %s" % params)
    out = eng.invoke(st, mk("func", qual, None), [vals[p] for p in params], [])
    for s, v in out.rets:
        s = mon.judge(eng, s.setmon(ended=None), FILE)
        if s is None:
            continue
        l = s.mon.get("work")
        empty = l is None or eng.decide(s, l) is False or linear.by_facts(s, mk("cmp", "le", call(
            "len", None, (l,), (), None), const(0))) is True
        ctx.check(empty, LISTED, FILE, "the scan ends although directories are open", s.path(), key="early")
        whole = mon.root is not None and any(is_call(x, "os.path.abspath", "os.path.realpath", "os.getcwd") for x in subterms(mon.root))
        ctx.check(whole, LISTED, FILE, "the root is %s, which may not be an absolute path" % mon.root, s.path(), key="absolute")
        o = eng.obj(s, v) if v.op == "ref" else None
        items = o.items if o is not None and o.kind == "dict" else {}
        get = {cval(k) if isinstance(k, T) else k: x for k, x in (items or {}).items()}
        ctx.check(get.get("root") == mon.root, LISTED, FILE, "the root in the result is %s, not %s" % (get.get("root"), mon.root), s.path(),
                  key="result root")
        d = get.get("directories")
        ok = d is not None and (d == s.mon.get("dirs") or l is None and eng.obj(s, d) is not None and not eng.obj(s, d).items)
        ctx.check(ok, LISTED, FILE, "the directories in the result are %s" % d, s.path(), key="result dirs")
        ctx.count("results")
        ctx.check(not s.mon.get("norx"), FAULT, FILE, "a scan succeeds although its root may be no directory", s.path(), key="root")
    for s, exc in out.raises:
        nodir = s.mon.get("norx") or any(v is False and is_call(k, "os.path.isdir", "os.path.exists") for k, v in s.facts.items())
        ctx.check(nodir and exc[0].split(":")[-1] == "ScanDirectoryError", FAULT, FILE, "the scan fails with %s" % exc[0], s.path(),
                  key="raise " + exc[0])
    for k in mon.wanted:
        ctx.check(k is None or (k, False) not in mon.steps, DEPTH, FILE, "the depth kept with a directory is not that of its parent plus one",
                  key="count")
    for n, m in (("scans", 2), ("entered", 1), ("listed", 2), ("entries", 1), ("results", 1)):
        ctx.need(n, m)
