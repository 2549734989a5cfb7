"""C28: snapshots keep to the space there is, serve the reads and are removed."""

from ..terms import T, mk, const, is_const, cval, is_call, call, subterms, sym, NONE
from ..program import AnalysisError
from ..files import Journal, requests, request, answers
from ..paths import Paths
from .C26 import same
from .. import linear, rational

TECHNIQUE = ("abstract interpretation of the handlers of remote file requests: the linear inequality known where the snapshot is "
             "copied; equality of the path terms of snapshot, read and removal; journal of file operations per path")
SPACE = "a snapshot is made only if it leaves the safety margin free, by the disk usage measured"
LOW = "a request for which there is not enough space is refused as that"
READ = "reads are served from the snapshot"
CLOSE = "closing a transfer removes its snapshot"
FILE = "dataplicity/remote_directory.py"


class Snapshots(Journal):

    def caught(self, eng, st, exc, handler, node):
        if "request" not in st.mon:
            return None
        return self.log(st, "caught", exc[0])

    def judge(self, eng, st, what, name, paths, args, kwargs, node):
        r = self.ctx
        where = eng.loc(st, node)
        kind = st.mon["request"]
        if what == "space":
            t = call(name, None, tuple(args), tuple(kwargs), eng.uid(st, node))
            return [("ret", eng.purge(self.log(st, "space", paths[0], t), t), t),
                    self.exc(eng, self.log(st, "failed", "space", paths[0]), node, "Exception")]
        if kind == "open_remote_file" and (what in ("copy", "move") or what == "open" and self.paths.inside_or_none(
                st, paths[0]) is not None and set(str(cval(args[1])) if len(args) > 1 and is_const(args[1]) else "r") & set("wxa+")):
            src = paths[0] if what != "open" else None
            r.count("snapshots")
            done = st.mon.get("done", ())
            unknown = any(e[0] == "failed" and e[1] in ("space", "size") for e in done) or any(
                e[0] == "caught" for e in done)
            r.check(unknown or self.fits(eng, st, src), SPACE, where, "%s is copied although it may leave less than the margin free" % (
                src or "the file"), st.path(), key="space")
            self.snapshots.add(self.paths.strip(paths[-1]))
        if kind == "read_remote_file" and what == "open":
            r.count("reads")
            self.reads.append((self.paths.strip(paths[0]), where, st.path()))
        if kind == "close_remote_file" and what == "remove":
            r.count("removals")
            self.removals.append((self.paths.strip(paths[0]), where, st.path()))
        return None

    def fits(self, eng, st, src):
        """An inequality size + used - total + margin <= 0 is known."""
        return any(self.measure(eng, st, d, src) for d, _ in inequalities(st))

    def measure(self, eng, st, d, src):
        d = dict(d)
        c = d.pop(None, 0)
        size = [k for k in d if is_call(k, "os.path.getsize") or k.op == "attr" and k.args[1] == "st_size"]
        if len(size) != 1 or d.pop(size[0]) != 1 or c <= 0:
            return False
        paths = [x.args[2][0] for x in subterms(size[0]) if is_call(x, "os.path.getsize", "os.stat") and x.args[2]]
        if src is not None and not any(same(p, src) for p in paths):
            return False
        spaces = []

        def names(t):
            for x in subterms(t):
                if is_call(x, "os.statvfs", "shutil.disk_usage") and x.args[2]:
                    spaces.append(x.args[2][0])
            return sorted(x.args[1] for x in subterms(t) if x.op == "attr")

        total = {}
        for k, v in d.items():
            num, den = rational.fraction(k)
            if den != {(): 1}:
                return False
            for m, w in num.items():
                n = tuple(sorted(x for t in m for x in names(t)))
                total[n] = total.get(n, 0) + v * w
        shape = sorted((n, v) for n, v in total.items() if v)
        free = ([(("f_bfree", "f_frsize"), -1)], [(("f_bavail", "f_frsize"), -1)], [(("free",), -1)],
                [(("total",), -1), (("used",), 1)], [(("f_bavail", "f_bsize"), -1)], [(("f_bfree", "f_bsize"), -1)])
        if shape not in [sorted(f) for f in free]:
            return False
        for p in spaces:
            a = self.paths.inside_or_none(st, p)
            if a is None or a[0] != "T":
                return False
        return bool(spaces)


def inequalities(st):
    """[(poly, strict)]: what is known to be at most zero."""
    for k, v in st.facts.items():
        if k.op == "cmp" and k.args[0] in ("lt", "le"):
            a, b = linear.poly(k.args[1]), linear.poly(k.args[2])
            strict = (k.args[0] == "lt") == v
            yield (linear.sub(a, b) if v else linear.sub(b, a)), strict


def run(ctx):
    ctx.rule("in the handler of open_remote_file a file is copied only where the path's conditions imply, by linear arithmetic, size + "
             "used <= total - margin with a positive margin, for the size of that file and the usage of the temporary directory's "
             "disk, or where measuring failed; on a path where the opposite is known nothing is copied and the answer gives the lack "
             "of space as the reason; read_remote_file opens only the path that open_remote_file copied to for the same id; "
             "close_remote_file removes that path on every path on which it exists")
    ctx.assume("the space measured does not change before the copy is complete")
    mon = Snapshots(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    mon.snapshots, mon.reads, mon.removals = set(), [], []
    for st, ws, rd in requests(eng, mon):
        mon.paths = Paths(eng, remote(eng, st, rd))
        outs = {}
        for kind in ("open_remote_file", "read_remote_file", "close_remote_file"):
            s0 = st.setmon(request=kind, done=())
            s0.trace = None
            outs[kind] = request(eng, s0, ws, kind)
        opened(ctx, eng, mon, *outs["open_remote_file"])
        if not mon.snapshots:
            raise AnalysisError("no snapshot is made")
        for p in mon.snapshots:
            key = outs["open_remote_file"][1]["upload_id"]
            ctx.check(distinct(p, key), READ, FILE, "the snapshot %s is not kept apart from those of other transfers" % p, key="apart")
        for p, where, trace in mon.reads:
            ctx.check(p in mon.snapshots, READ, where, "%s is read, which is not the snapshot %s" % (p, sorted(map(str, mon.snapshots))),
                      trace, key="read")
        for p, where, trace in mon.removals:
            ctx.check(p in mon.snapshots, CLOSE, where, "%s is removed, which is not the snapshot %s" % (p, sorted(map(str, mon.snapshots))),
                      trace, key="remove")
        closed(ctx, eng, mon, *outs["close_remote_file"])
        for s, _ in outs["read_remote_file"][0].rets:
            gone = [e for e in s.mon["done"] if e[0] in ("remove", "move")]
            ctx.check(not gone, READ, FILE, "the snapshot is removed or moved by a read", s.path(), key="kept")
    for n in ("snapshots", "reads", "removals", "refusals", "closes"):
        ctx.need(n, 1)


def distinct(t, key):
    """Different values of key give different paths."""
    if t == key:
        return True
    if is_call(t, "os.path.join"):
        return any(distinct(x, key) for x in t.args[2])
    if t.op == "fmt":
        parts = t.args[0] if isinstance(t.args[0], tuple) else t.args
        return any(isinstance(x, T) and distinct(x, key) for x in parts)
    if t.op == "call" and t.args[0] in ("os.path.abspath", "os.path.normpath", "os.path.realpath", "repr"):
        return any(distinct(x, key) for x in t.args[2])
    if t.op == "call" and t.args[0].split(".")[-1] in ("encode", "decode", "hexlify", "quote", "b16encode", "sha256", "sha1", "md5",
                                                       "hexdigest", "urlsafe_b64encode", "hex", "replace"):
        return any(distinct(x, key) for x in t.args[2] + (t.args[1],) if isinstance(x, T))
    return False


def remote(eng, st, rd):
    cands = [v for v in eng.obj(st, rd).items.values() if isinstance(v, T) and is_call(v, "os.path.abspath", "os.path.realpath",
                                                                                      "os.path.expanduser", "os.path.normpath")]
    consts = [v for v in eng.obj(st, rd).items.values() if isinstance(v, T) and is_const(v) and isinstance(cval(v), str)
              and cval(v) not in ("/var/tmp", "/tmp")]
    roots = {Paths.core(None, v) for v in (cands or consts)}
    if len(roots) != 1:
        raise AnalysisError("the remote directory is not a single attribute")
    return roots.pop()


def opened(ctx, eng, mon, out, fields):
    for s, _ in out.rets:
        done = s.mon["done"]
        # the opposite is known: a path refused for its size
        neg = [d for d, _ in inequalities(s) if is_low(eng, mon, s, d)]
        if not neg:
            continue
        ctx.count("refusals")
        copies = [e for e in done if e[0] in ("copy", "move")]
        ctx.check(not copies, LOW, FILE, "a snapshot is made although there is not enough space", s.path(), key="copied")
        sent = answers(eng, s)
        if len(sent) != 1 or sent[0] is None:
            continue
        a = sent[0][1]
        texts = words(eng, s, a.get("fail_reason", NONE))
        ctx.check(is_const(a["fail"]) and bool(cval(a["fail"])), LOW, FILE, "a request is answered with success although there is not enough "
                  "space", s.path(), key="fail")
        ctx.check(any("space" in x.lower() for x in texts), LOW, FILE, "a request refused for lack of space gives another reason: %s" % texts,
                  s.path(), key="reason")


def is_low(eng, mon, s, d):
    """total - margin - used - size <= 0"""
    return mon.measure(eng, s, {k: -v for k, v in d.items()}, None)




def words(eng, s, t, depth=0):
    """Constant texts in a message."""
    r = []
    for x in subterms(t):
        if is_const(x) and isinstance(cval(x), (str, bytes)):
            r.append(cval(x) if isinstance(cval(x), str) else cval(x).decode("utf-8", "replace"))
        if x.op == "ref" and depth < 3:
            o = eng.obj(s, x)
            if o is not None:
                if o.cls:
                    r.append(str(o.cls).split(":")[-1].split(".")[-1])
                for y in o.terms():
                    r.extend(words(eng, s, y, depth + 1))
        if x.op == "exc":
            r.append(str(x.args[0]).split(":")[-1])
    return r


def closed(ctx, eng, mon, out, fields):
    for s, _ in out.rets + [(s, None) for s, _ in out.raises]:
        done = s.mon["done"]
        ctx.count("closes")
        tried = [e for e in done if e[0] == "remove" or e[0] == "failed" and e[1] == "remove"]
        absent = any(v is False and is_call(k, "os.path.exists", "os.path.lexists", "os.path.isfile") and mon.paths.strip(k.args[2][0])
                     in mon.snapshots for k, v in s.facts.items())
        earlier = [e for e in done if e[0] == "caught"]
        ctx.check(tried or absent or earlier, CLOSE, FILE, "a transfer is closed, but its snapshot stays", s.path(), key="stays")
    for s, exc in out.raises:
        ctx.bad(CLOSE, FILE, "closing a transfer raises %s" % exc[0], s.path(), key="raises")
