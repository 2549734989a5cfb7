"""C30: scan results are published whole, and reported only once published."""

import ast

from ..terms import T, mk, const, is_const, cval, is_call, call, subterms, sym, NONE
from ..program import AnalysisError
from ..files import Journal, requests, request, answers, mode_of
from ..instr import Threads, run_thread
from ..paths import Paths
from ..world import is_log
from .C26 import same
from .C28 import remote

TECHNIQUE = ("static analysis: abstract interpretation of a scan request and of the thread it starts, every step failing or not; "
             "journal of what was done to the result file and in which order it was reported; locks held at each step")
WHOLE = "the result file is only replaced, in one step, by a complete one"
AFTER = "success is reported only after the result file is in place"
FAILED = "a scan that fails is reported as failed"
WHAT = "the remote directory is scanned, with sizes"
ONE = "scans and the replacement of the result file exclude one another"
FILE = "dataplicity/directory_scanner.py"
SCAN = "dataplicity.scan_directory:scan_directory"
RESULT = "scan_remote_directory_result"


class Scans(Threads, Journal):

    def __init__(self, ctx):
        Journal.__init__(self, ctx)
        self.sources = set()
        self.locks = []
        self.old = None

    def raises(self, eng, st, name, base, args, kwargs):
        if name.startswith("time.") or name in (".locked", "tempfile.gettempdir"):
            return []
        return Journal.raises(self, eng, st, name, base, args, kwargs)

    def call(self, eng, st, name, base, args, kwargs, node):
        if "request" in st.mon:
            if name == SCAN:
                self.whole_scan(eng, st, args, kwargs, node)
                return self.scan(eng, st, args, node)
            f = base if base is not None and (is_call(base, "open", "os.fdopen")) else None
            if f is not None and name in (".close", ".__exit__"):
                bad = self.exc(eng, self.log(st, "failed", "close", f), node)
                return [("ret", self.log(st, "close", f), NONE), bad]
            if name == "json.dump" and len(args) > 1:
                t = call("json.dumps", None, (args[0],), (), None)
                return [("ret", self.log(st, "write", args[1], t), NONE),
                        self.exc(eng, self.log(st, "failed", "write", args[1]), node, "Exception")]
            if name == "json.dumps" and args:
                t = call("json.dumps", None, (args[0],), (), None)
                return [("ret", st, t), self.exc(eng, self.log(st, "failed", "dumps"), node, "Exception")]
            if name in ("tempfile.gettempdir", "tempfile.gettempdirb"):
                return [("ret", st, call(name, None, (), (), None))]
            if name == ".locked":
                t = call(".locked", base, (), (), eng.uid(st, node))
                return [("ret", eng.purge(st, t), t)]
        r = self.thread_call(eng, st, name, base, args, kwargs, node)
        return r if r is not None else Journal.call(self, eng, st, name, base, args, kwargs, node)

    def whole_scan(self, eng, st, args, kwargs, node):
        """Of the remote directory, with sizes, to the usual depth."""
        a = eng.funcs[SCAN].node.args
        names = [x.arg for x in a.args]
        given = dict(zip(names, args))
        given.update(kwargs)
        for x, d in zip(reversed(names), reversed(a.defaults)):
            if x not in given and isinstance(d, ast.Constant):
                given[x] = const(d.value)
        root, sizes = given.get("root_path"), given.get("file_sizes")
        where = eng.loc(st, node)
        self.ctx.check(root is not None and self.paths.core(root) is self.paths.remote, WHAT, where, "%s is scanned, not the remote directory" % (
            root,), st.path(), key="what")
        self.ctx.check(sizes is not None and eng.decide(st, sizes) is True, WHAT, where, "the scan leaves out the sizes: file_sizes is %s" % (
            sizes,), st.path(), key="sizes")

    def scan(self, eng, st, args, node):
        r = self.ctx
        where = eng.loc(st, node)
        r.count("scans")
        r.check(st.held, ONE, where, "the directory is scanned without a lock", st.path(), key="unlocked scan")
        self.exclusive(eng, st, where)
        t = call("scanned", None, (), (), eng.uid(st, node))
        return [("ret", eng.purge(self.log(st, "scanned", t), t), t),
                self.exc(eng, self.log(st, "failed", "scan"), node, "Exception"),
                self.exc(eng, self.log(st, "failed", "scan"), node, "dataplicity.scan_directory:ScanDirectoryError", True)]

    def exclusive(self, eng, st, where):
        for l in st.held:
            self.ctx.check(l.op != "ref" or l.args[0] in self.old or l.args[0] in eng.base_heap, ONE, where,
                           "the lock is made anew for each scan", st.path(), key="own lock")
        self.locks.append((frozenset(st.held), where))

    def sending(self, eng, st, msg, node):
        return self.log(st, "sent", msg) if "request" in st.mon else st

    def acquire(self, eng, st, lock, node):
        if "request" in st.mon and lock in st.held:
            self.ctx.bad(ONE, eng.loc(st, node), "the lock is taken again by the thread that holds it", st.path(), key="again")
            return None
        return st

    def judge(self, eng, st, what, name, paths, args, kwargs, node):
        r = self.ctx
        where = eng.loc(st, node)
        if st.mon["request"] == "open_remote_file":
            if what == "copy" and not any(x.op == "sym" for x in subterms(paths[0])):
                self.sources.add(paths[0])
            return None
        touched = [p for p in paths[-1:] if any(same(p, s) for s in self.sources)] if what in ("open", "copy", "move", "write") else \
            [p for p in paths if any(same(p, s) for s in self.sources)] if what == "remove" else []
        if what == "move" and any(same(paths[0], s) for s in self.sources):
            r.bad(WHOLE, where, "the result file is moved away", st.path(), key="away")
        if not touched:
            return None
        if what == "open" and not set(mode_of(args, kwargs)) & set("wax+"):
            return None
        r.count("replacements")
        if what != "move":
            r.bad(WHOLE, where, "the result file is %s in place: a reader, or a crash, finds a part of it" % {
                "open": "written", "copy": "written", "write": "changed", "remove": "removed"}[what], st.path(), key="in place " + what)
            return None
        src = paths[0]
        self.whole(eng, st, src, paths[1], where)
        r.check(st.held, ONE, where, "the result file is replaced without the lock", st.path(), key="unlocked move")
        self.exclusive(eng, st, where)
        return None

    def whole(self, eng, st, src, dst, where):
        r = self.ctx
        a, b = self.paths.inside_or_none(st, src), self.paths.inside_or_none(st, dst)
        near = a is not None and b is not None and a[0] == b[0] and a[1][:-1] == b[1][:-1] and head(
            self.paths.strip(src)) is head(self.paths.strip(dst))
        r.check(near, WHOLE, where, "%s is moved into place from another folder, which may not be one step" % src, st.path(), key="folder")
        done = st.mon["done"]
        opens = [i for i, e in enumerate(done) if e[0] == "open" and same(e[1], src) and set(e[2]) & set("wax+")]
        if not opens:
            r.bad(WHOLE, where, "what is moved into place has not been written by this scan", st.path(), key="unwritten")
            return
        i = opens[-1]
        f = done[i][3]
        r.check("w" in done[i][2] or "x" in done[i][2], WHOLE, where, "the new file may contain something else before", st.path(), key="mode")
        rest = done[i:]
        writes = [e for e in rest if e[0] == "write" and e[1] is f]
        closed = [n for n, e in enumerate(rest) if e == ("close", f)]
        bad = [e for e in rest if e[0] == "failed" and e[1] in ("write", "close") and e[2] is f]
        scanned = [e[1] for e in done if e[0] == "scanned"]
        r.check(not bad, WHOLE, where, "a file is moved into place although writing it failed", st.path(), key="failed write")
        r.check(closed, WHOLE, where, "a file is moved into place before it is closed: a part of it may not be written yet", st.path(),
                key="open")
        good = len(writes) == 1 and len(scanned) == 1 and self.serialized(writes[0][2], scanned[-1])
        r.check(good or bad, WHOLE, where, "what is moved into place is not exactly the serialized result of the scan: %s" % [
            str(e[2]) for e in writes], st.path(), key="data")

    def serialized(self, t, scanned):
        while is_call(t, ".encode", "str", "bytes"):
            t = t.args[1] if t.args[1] is not None else t.args[2][0]
        return is_call(t, "json.dumps") and t.args[2][0] is scanned


def head(t):
    """Where a path begins."""
    while True:
        if is_call(t, "os.path.join") and t.args[2]:
            t = t.args[2][0]
        elif t.op == "fmt":
            t = t.args[0][0]
        elif t.op == "item" and is_call(t.args[0], "os.path.split"):
            t = t.args[0].args[2][0]
        else:
            return t


def run(ctx):
    ctx.rule("a request for a scan is followed into the thread it starts, with every file operation, the scan and the serialization failing "
             "or not: the file that requests for the scan are answered from is changed only by a move from the same folder, of a file "
             "that was opened for writing in this scan, in which the serialized result was written once and which was closed; the empty "
             "result (success) is sent only after that move, a path on which something failed sends the error instead, and each "
             "request that is not dropped because a scan is in progress sends exactly one result; the scan and the move happen under "
             "one lock that outlives the request")
    ctx.assume("sending does not raise; a rename in one folder is one step; exceptions have a text; the content of a closed "
               "file survives (the machine does not lose power)")
    mon = Scans(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    if SCAN not in eng.funcs:
        raise AnalysisError("no function scan_directory")
    for st, ws, rd in requests(eng, mon):
        mon.old = frozenset(st.heap)
        mon.paths = Paths(eng, remote(eng, st, rd))
        s0 = st.setmon(request="open_remote_file", done=(), started=(), failed=())
        s0.trace = None
        mon.start_fails = False
        request(eng, s0, ws, "open_remote_file")
        if len({mon.paths.strip(p) for p in mon.sources}) != 1:
            raise AnalysisError("the scan is served from %s" % sorted(map(str, mon.sources)))
        mon.start_fails = True
        s0 = st.setmon(request="scan", done=(), started=(), failed=())
        s0.trace = None
        out, _ = request(eng, s0, ws, "scan_remote_directory")
        for s, exc in out.raises:
            ctx.bad(FAILED, "dataplicity/m2m/wsclient.py", "a scan request raises %s" % exc[0], s.path(), key="raises")
        mon.ends = {}
        for s, _ in out.rets:
            finished(ctx, eng, mon, s)
        # a scan that has ended, however it did, leaves no scan in progress
        for z in list(mon.ends.values()):
            ctx.count("next scans")
            mon.ends = {}
            for s, _ in request(eng, z, ws, "scan_remote_directory")[0].rets:
                if not s.mon["started"] and not s.mon["failed"]:
                    finished(ctx, eng, mon, s)
        scanner = [v for v in eng.obj(s0, rd).items.values() if isinstance(v, T) and v.op == "ref" and eng.obj(s0, v) is not None
                   and eng.obj(s0, v).cls == eng.find_class("DirectoryScanner", "dataplicity.directory_scanner")]
        if len(scanner) != 1:
            raise AnalysisError("the remote directory has no scanner")
        mon.start_fails = False
        out = eng.invoke_method(s0, scanner[0], "perform_scan")
        for s, _ in out.rets:
            for t in s.mon["started"]:
                o = run_thread(eng, s.setmon(started=()), t)
                ctx.count("unasked")
                for z, _ in o.rets + o.raises:
                    ctx.check(not z.held, ONE, FILE, "the lock is still held when a scan has ended", z.path(), key="kept lock")
    common = None
    for held, where in mon.locks:
        common = held if common is None else common & held
    ctx.check(common, ONE, FILE, "there is no one lock that all scans hold", key="common lock")
    for n in ("scans", "replacements", "published", "failures", "unasked", "next scans", "dropped"):
        ctx.need(n, 1) if n != "dropped" else None


def finished(ctx, eng, mon, s):
    started = s.mon["started"]
    if not started and s.mon["failed"]:
        outcome(ctx, eng, mon, s, False)
        return
    if not started:
        sent = [e for e in s.mon["done"] if e[0] == "sent"]
        if any(e[0] == "scanned" or e[0] == "failed" for e in s.mon["done"]):
            outcome(ctx, eng, mon, s, None)
            return
        busy = any(v is True and is_call(k, ".locked") or v is False and is_call(k, ".acquire") for k, v in s.facts.items())
        ctx.count("dropped")
        ctx.check(busy or sent, FAILED, FILE, "a request for a scan is dropped although none is in progress", s.path(), key="dropped")
        return
    ctx.check(len(started) == 1, ONE, FILE, "a request starts %d scans" % len(started), s.path(), key="threads")
    for t in started[:1]:
        z = s.setmon(started=())
        z.trace = None
        out = run_thread(eng, z, t)
        for y, _ in out.rets:
            outcome(ctx, eng, mon, y, None)
        for y, exc in out.raises:
            if len([e for e in y.mon["done"] if e[0] == "sent"]) == 0:
                ctx.bad(FAILED, FILE, "the scan thread ends with %s, which is not reported" % exc[0], y.path(), key="thread raises")
            else:
                outcome(ctx, eng, mon, y, None)


def outcome(ctx, eng, mon, s, ok):
    done = s.mon["done"]
    z = s.setmon(done=(), started=(), failed=())
    z.facts = {}
    z.trace = None
    mon.ends.setdefault(z.key(), z)
    ctx.check(not s.held, ONE, FILE, "the lock is still held when a scan has ended", s.path(), key="kept lock")
    published = [i for i, e in enumerate(done) if e[0] == "move" and any(same(e[2], x) for x in mon.sources)]
    sent = [(i, a) for i, a in zip([i for i, e in enumerate(done) if e[0] == "sent"], answers(eng, s))]
    results = [(i, a) for i, a in sent if a is not None and a[0] == RESULT]
    ctx.check(len(results) == 1 and len(sent) == 1, FAILED if not published else AFTER, FILE, "a scan ends with %d results sent" % len(results),
              s.path(), key="results %d" % len(results))
    for i, (kind, fields) in results:
        v = list(fields.values())[0]
        text = is_const(v) and not cval(v)
        if text:
            ctx.count("published")
            ctx.check(bool(published) and published[-1] < i, AFTER, FILE, "success is reported %s" % (
                "before the result file is in place" if published else "although the result file is not in place"), s.path(),
                key="early" if published else "false success")
        else:
            ctx.count("failures")
            wrong = not published or any(e[0] == "failed" for e in done)
            ctx.check(wrong, AFTER, FILE, "a scan that was published is reported as failed", s.path(), key="false failure")
            ctx.check(any(x.op == "exc" for x in subterms(v)) or is_const(v) or is_call(v, "str", "repr") or v.op == "fmt", FAILED, FILE,
                      "the failure is reported as %s" % v, s.path(), key="text")
