"""C25: remote file access stays inside the remote directory and the agent's temporary folders."""

from ..terms import T, mk, const, is_const, cval, is_call, subterms
from ..program import AnalysisError
from ..files import Files, requests, request, EFFECTS
from ..paths import Paths, Open, Unclear

TECHNIQUE = ("abstract interpretation of the handlers of remote file requests; lexical placement of every path term that reaches "
             "the file system, under the branch conditions of its path")
RULE = "paths from the server stay in the folders meant for them"
KINDS = ("open_remote_file", "read_remote_file", "close_remote_file", "write_remote_file")
# functions of files not listed as effects, that take no path or only look at one
HARMLESS = ("os.getpid", "os.fsync", "os.close", "os.umask", "os.urandom", "os.strerror", "os.fspath", "os.fsencode", "os.fsdecode",
            "os.getenv", "os.environ.get", "os.write", "os.read", "os.lseek", "os.fdopen", "os.fstat", "shutil.copyfileobj", "shutil._samefile")


def tainted(t):
    return isinstance(t, T) and any(x.op == "sym" and str(x.args[0]).startswith("request:") for x in subterms(t))


def mode(name, args, kwargs):
    kw = dict(kwargs)
    if name == "os.open":
        return "w"
    m = kw.get("mode", args[1] if len(args) > 1 else const("r"))
    v = cval(m) if is_const(m) else "w"
    return "w" if set(str(v)) & set("wax+") else "r"


class Containment(Files):

    def call(self, eng, st, name, base, args, kwargs, node):
        if isinstance(name, str) and name not in EFFECTS and name not in HARMLESS and "request" in st.mon \
                and name.split(".")[0] in ("os", "shutil", "tempfile", "glob", "pathlib", "io", "fcntl", "subprocess", "zipfile", "tarfile") \
                and not name.startswith("os.path.") and any(tainted(x) for x in list(args) + [v for _, v in kwargs]):
            raise AnalysisError("%s is given data of a request, line %s" % (name, eng.loc(st, node)))
        return Files.call(self, eng, st, name, base, args, kwargs, node)

    def effect(self, eng, st, what, name, paths, args, kwargs, node):
        kind = st.mon.get("request")
        if kind is None:
            return None
        where = eng.loc(st, node)
        if what == "open" and paths[0] is not None and eng.typeof(st, paths[0]) == "int":
            return None
        for i, p in enumerate(paths):
            if p is None:
                raise AnalysisError("%s without its path, %s" % (name, where))
            self.judge(eng, st, kind, what, name, i, p, "r" if what != "open" else mode(name, args, kwargs), where)
        return None

    def judge(self, eng, st, kind, what, name, i, p, m, where):
        r = self.ctx
        r.count("paths")
        try:
            anchor, comps = self.paths.inside(st, p)
        except Open as e:
            if not tainted(p):
                if what in ("look", "space") or what == "open" and m == "r":
                    r.ok(RULE, where)
                    return
            r.bad(RULE, where, "%s is applied to %s for %s: nothing keeps %s inside the folder" % (name, p, kind, e.args[0]), st.path(),
                  key="%s %s open" % (kind, what))
            return
        except Unclear as e:
            raise AnalysisError("path %s at %s: %s" % (p, where, e.args[0]))
        lead = self.paths.lead(comps)
        folder = anchor == "T" and len(lead) >= 1 and len(comps) > len(lead)     # inside a folder of the agent's
        fixed = anchor == "T" and len(lead) == len(comps)
        file_ = anchor == "R" and bool(comps)
        if what in ("look", "space"):
            good = anchor in ("R", "T") or not tainted(p)
        elif what == "mkdir":
            good = fixed and bool(lead)
        elif what in ("open", "copy", "move", "write", "remove"):
            reads = what == "open" and m == "r" or what in ("copy", "move") and i == 0
            source = what == "move" and i == 0
            if kind == "open_remote_file":
                good = folder or reads and not source and (file_ or fixed and bool(lead))
            elif kind == "write_remote_file":
                good = folder or file_ and what in ("move", "copy", "open", "write") and (i == 1 or what in ("open", "write"))
            else:
                good = folder
            if what == "copy" and i == 0 and folder:
                good = True
            if what in ("copy", "move"):
                self.seen.add((kind, what, i, anchor))
            else:
                self.seen.add((kind, what, m, anchor))
        else:
            raise AnalysisError("effect %s" % what)
        text = "%s, %s, for %s is %s" % (name, where, kind, p)
        r.check(good, RULE, where, "%s: %s is applied to %s, which is not in a folder meant for it" % (kind, name, p), st.path(),
                key="%s %s %d place" % (kind, what, i))


def run(ctx):
    ctx.rule("every path that reaches the file system in the handlers of open/read/close/write_remote_file is placed lexically: its "
             "anchor is the configured remote directory or the directory for temporary files, everything below it that comes from "
             "the request is relative, and is known on this path to have no '..' component; files are created, written and removed "
             "only in a constant folder of the temporary directory, except for the destination of a stored upload, which is below "
             "the remote directory; open_remote_file reads only below the remote directory, or the scan, a constant file")
    ctx.assume("no symbolic links lead out of the remote directory; tempfile.gettempdir() and /var/tmp are directories for temporary files")
    mon = Containment(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    mon.seen = set()
    for st, ws, rd in requests(eng, mon):
        cands = [v for v in eng.obj(st, rd).items.values() if isinstance(v, T) and is_call(v, "os.path.abspath", "os.path.realpath",
                                                                                          "os.path.expanduser", "os.path.normpath")]
        consts = [v for v in eng.obj(st, rd).items.values() if isinstance(v, T) and is_const(v) and isinstance(cval(v), str)
                  and cval(v) not in ("/var/tmp", "/tmp")]
        roots = {Paths.core(None, v) for v in (cands or consts)}
        if len(roots) != 1:
            raise AnalysisError("the remote directory is not a single attribute: %s" % sorted(map(str, roots)))
        mon.paths = Paths(eng, roots.pop())
        for kind in KINDS:
            out, fields = request(eng, st.setmon(request=kind), ws, kind)
            ctx.count("requests")
    for k in (("open_remote_file", "copy", 0, "R"), ("open_remote_file", "copy", 1, "T"), ("read_remote_file", "open", "r", "T"),
              ("write_remote_file", "move", 1, "R")):
        alt = {s for s in mon.seen if s[0] == k[0]}
        if not alt:
            raise AnalysisError("no file is used for %s" % k[0])
    ctx.need("requests", 4)
