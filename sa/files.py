"""The remote directory: its requests, as the agent constructed receives them, and what they do to files."""

from .terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE, ext
from .state import HObj
from .program import AnalysisError
from .wire import Wire
from .world import is_log
from . import packets, api

WS = "dataplicity.m2m.wsclient"

# position of the paths in the arguments, what is done there
EFFECTS = {
    "open": ((0,), "open"), "io.open": ((0,), "open"), "os.open": ((0,), "open"), "codecs.open": ((0,), "open"),
    "os.remove": ((0,), "remove"), "os.unlink": ((0,), "remove"), "os.rmdir": ((0,), "remove"), "shutil.rmtree": ((0,), "remove"),
    "os.removedirs": ((0,), "remove"),
    "os.mkdir": ((0,), "mkdir"), "os.makedirs": ((0,), "mkdir"),
    "os.rename": ((0, 1), "move"), "os.replace": ((0, 1), "move"), "shutil.move": ((0, 1), "move"), "os.renames": ((0, 1), "move"),
    "shutil.copyfile": ((0, 1), "copy"), "shutil.copy": ((0, 1), "copy"), "shutil.copy2": ((0, 1), "copy"),
    "os.link": ((0, 1), "copy"), "os.symlink": ((0, 1), "copy"), "shutil.copytree": ((0, 1), "copy"),
    "os.truncate": ((0,), "write"), "os.chmod": ((0,), "write"), "os.chown": ((0,), "write"), "os.utime": ((0,), "write"),
    "os.mkfifo": ((0,), "write"), "os.mknod": ((0,), "write"),
    "os.path.exists": ((0,), "look"), "os.path.lexists": ((0,), "look"), "os.path.isdir": ((0,), "look"),
    "os.path.isfile": ((0,), "look"), "os.path.islink": ((0,), "look"), "os.path.getsize": ((0,), "look"),
    "os.path.getmtime": ((0,), "look"), "os.stat": ((0,), "look"), "os.lstat": ((0,), "look"), "os.listdir": ((0,), "look"),
    "os.scandir": ((0,), "look"), "os.access": ((0,), "look"), "os.statvfs": ((0,), "space"), "shutil.disk_usage": ((0,), "space"),
    "os.path.ismount": ((0,), "look"), "os.path.samefile": ((0, 1), "look"),
}


def named(args, kwargs, i):
    if i < len(args):
        return args[i]
    kw = dict(kwargs)
    for n in (("path", "file", "src", "name") if i == 0 else ("dst",)):
        if n in kw:
            return kw[n]
    return None


class Files(Wire):
    """To be refined: effect(eng, st, what, name, paths, args, kwargs, node)."""

    def __init__(self, ctx):
        self.ctx = ctx

    def prepare(self, eng):
        Wire.prepare(self, eng)
        self.dispatcher = eng.find_class("Dispatcher", "dataplicity.m2m.dispatcher")

    def constructing(self, eng, st, name, base, args, kwargs, node):
        if name == self.dispatcher:
            return [("ret", st, sym("dispatcher"))]
        return None

    def raises(self, eng, st, name, base, args, kwargs):
        if is_log(name, base) or name in (".send_binary",):
            return []
        return None

    def exc(self, eng, st, node, name="OSError", exact=False):
        return ("raise", st, (name, exact, frozenset(), mk("exc", name, exact, eng.site(st, node), None)))

    def call(self, eng, st, name, base, args, kwargs, node):
        e = EFFECTS.get(name)
        if e is not None:
            r = self.effect(eng, st, e[1], name, [named(args, kwargs, i) for i in e[0]], args, kwargs, node)
            if r is not None:
                return r
        return Wire.call(self, eng, st, name, base, args, kwargs, node)

    def effect(self, eng, st, what, name, paths, args, kwargs, node):
        return None


def requests(eng, mon):
    """[(state, websocket client, remote directory)]: the agent, constructed."""
    from .instr import world
    res = []
    cid = eng.find_class("WSClient", WS)
    rid = eng.find_class("RemoteDirectory", "dataplicity.remote_directory")
    for st, client, manager in world(eng):
        ws = [v for v in eng.obj(st, manager).items.values() if isinstance(v, T) and v.op == "ref" and eng.obj(st, v) is not None
              and eng.obj(st, v).cls == cid]
        if len(ws) != 1:
            raise AnalysisError("the M2M manager has no client")
        rd = [v for v in eng.obj(st, ws[0]).items.values() if isinstance(v, T) and v.op == "ref" and eng.obj(st, v) is not None
              and eng.obj(st, v).cls == rid]
        if len(rd) != 1:
            raise AnalysisError("the client has no remote directory")
        res.append((st, ws[0], rd[0]))
    return res


TYPES = {("bytes",): "bytes", ("int",): "int"}


def request(eng, st, ws, kind, step=None):
    """(Out, {field: symbol}) of handling a request packet of this kind."""
    from .checks.C03 import handlers
    num = packets.numbers(eng).get(kind)
    row = [r for r in packets.table(eng, st) if r[1] == kind]
    hs = handlers(eng, eng.find_class("WSClient", WS)).get(num, ())
    if len(row) != 1 or len(hs) != 1:
        raise AnalysisError("no single handler of %s" % kind)
    fields = {}
    args = [sym("packet type")]
    for f in row[0][3]:
        types = f[1]
        t = "bytes" if types and set(types) <= {"bytes", "str"} and "bytes" in types else "int" if types and "int" in types else None
        fields[f[0]] = sym("request:" + f[0], t)
        args.append(fields[f[0]])
    return eng.invoke_method(st, ws, hs[0], tuple(args), step=step), fields


class Journal(Files):
    """Records what was done to files, in mon["done"]: ("open", path, mode, file), ("copy", source, destination, name),
    ("move", …), ("remove", path), ("mkdir", path), ("size", path, term), ("seek", file, position), ("write", file, data),
    ("read", file, count, term), ("failed", what, path…)."""

    def rettype(self, name, t):
        if name == ".read" and t.args[1] is not None and is_call(t.args[1], "open") and "b" in mode_of(t.args[1].args[2], t.args[1].args[3]):
            return "bytes"
        return None

    def log(self, st, *what):
        done = st.mon.get("done", ())
        return st if what in done or len(done) > 60 else st.setmon(done=done + (what,))

    def call(self, eng, st, name, base, args, kwargs, node):
        if isinstance(name, str) and base is not None and is_call(base, "open") and "request" in st.mon:
            t = call(name, base, tuple(args), tuple(kwargs), eng.uid(st, node))
            if name in (".seek", ".write", ".read", ".readinto", ".truncate", ".writelines"):
                bad = self.exc(eng, self.log(st, "failed", name[1:], base), node, "Exception")
                whence = args[1] if len(args) > 1 else dict(kwargs).get("whence", const(0))
                if name == ".seek":
                    ok = self.log(st, "seek", base, args[0] if args and is_const(whence) and cval(whence) == 0 else NONE)
                elif name == ".read":
                    ok = self.log(st, "read", base, args[0] if args else const(-1), t)
                elif name == ".write":
                    ok = self.log(st, "write", base, args[0] if args else NONE)
                else:
                    ok = self.log(st, name[1:], base)
                return [("ret", eng.purge(ok, t), t), bad]
        return Files.call(self, eng, st, name, base, args, kwargs, node)

    def effect(self, eng, st, what, name, paths, args, kwargs, node):
        if "request" not in st.mon:
            return None
        r = self.judge(eng, st, what, name, paths, args, kwargs, node)
        if r is not None:
            return r
        if name in ("os.path.exists", "os.path.lexists", "os.path.isdir", "os.path.isfile", "os.path.islink"):
            # named by the path alone: only what is done here changes it (see forget)
            return [("ret", st, call(name, None, (paths[0],), (), None))]
        if what in ("look", "space") and name != "os.path.getsize":
            return None
        t = call(name, None, tuple(args), tuple(kwargs), eng.uid(st, node) if what != "look" else None)
        if name == "os.path.getsize":
            ok = self.log(st, "size", paths[0], t)
        elif what == "open":
            ok = self.log(st, "open", paths[0], mode_of(args, kwargs), t)
        elif what in ("copy", "move"):
            ok = self.log(st, what, paths[0], paths[1], name)
        else:
            ok = self.log(st, what, paths[0])
        # a path that could be used before is well-formed
        used = {x for e in st.mon.get("done", ()) if e[0] != "failed" for x in e[1:] if isinstance(x, T)}
        kind = "OSError" if all(p in used for p in paths) else "Exception"
        bad = self.exc(eng, self.log(st, "failed", what, paths[0], paths[-1]), node, kind)
        if what in ("copy", "move", "remove", "mkdir", "write") or what == "open" and mode_of(args, kwargs)[:1] in ("w", "x", "a"):
            # what was seen of these paths before no longer holds
            for p in paths:
                ok = self.forget(eng, ok, p, what)
                if name not in ("os.rename", "os.replace", "os.link", "os.remove", "os.unlink", "os.mkdir"):
                    bad = (bad[0], self.forget(eng, bad[1], p, what), bad[2])
        val = t if what in ("open", "look") else NONE
        return [("ret", eng.purge(ok, t) if what == "open" else ok, val), bad]

    def forget(self, eng, st, path, what):
        dead = [k for k in st.facts if any(is_call(x, "os.path.exists", "os.path.isfile", "os.path.getsize", "os.path.isdir", "os.path.lexists")
                                          and path in x.args[2] for x in subterms(k))]
        if dead:
            st = st.copy()
            st.facts = {k: v for k, v in st.facts.items() if k not in dead}
        return st

    def judge(self, eng, st, what, name, paths, args, kwargs, node):
        return None


def mode_of(args, kwargs):
    kw = dict(kwargs)
    m = kw.get("mode", args[1] if len(args) > 1 else const("r"))
    return str(cval(m)) if is_const(m) else "w+"


def answers(eng, st):
    """What was sent: [(packet kind, {field: term})]; None for one that is not understood."""
    rows = {r[1]: r[3] for r in packets.table(eng, st)}
    names = {v: k for k, v in packets.numbers(eng).items()}
    r = []
    for msg in st.mon.get("sent", ()):
        first = msg[0]
        kind = names.get(cval(first)) if is_const(first) else None
        if kind is None and first.op == "enum":
            kind = str(first.args[1]).split(".")[-1]
        if kind not in rows or len(msg) != len(rows[kind]) + 1:
            r.append(None)
        else:
            r.append((kind, {f[0]: v for f, v in zip(rows[kind], msg[1:])}))
    return r
