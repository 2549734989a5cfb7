"""C27: a stored upload overwrites nothing, and is complete when reported so."""

import ast

from ..terms import T, mk, const, is_const, cval, is_call, call, subterms, NONE
from ..program import AnalysisError
from ..files import Journal, requests, request, answers
from ..paths import Paths
from .C26 import same, deep

TECHNIQUE = ("abstract interpretation of the handler of write_remote_file: at every move into the remote directory the destination "
             "is examined under the path's conditions; journal of seeks and writes per path; loop counters at back edges")
FREE = "an upload is stored only under a name not in use"
WHERE = "an upload is stored in its own folder, or in the remote directory if that does not exist"
BOUND = "names are tried a bounded number of times"
DONE = "success is reported after the upload is in place"
DATA = "partial data is written at the offset given"
KIND = "write_remote_file"
FILE = "dataplicity/remote_directory.py"


class Stored(Journal):

    def leaves(self, eng, t):
        return eng.phi_leaves(t) if t.op == "phi" else [t]

    def norm(self, t):
        return self.paths.strip(t)

    def judge(self, eng, st, what, name, paths, args, kwargs, node):
        r = self.ctx
        where = eng.loc(st, node)
        if what in ("move", "copy"):
            src, dst = paths
            r.count("moves")
            r.check(self.free(eng, st, dst, name), FREE, where, "%s replaces %s: nothing says that the name is not in use" % (name, dst),
                    st.path(), key="free")
            self.placed(eng, st, dst, where)
            if what == "move" or what == "copy":
                ups = [self.norm(self.fields["device_path"])] + [self.norm(e[1]) for e in st.mon.get("done", ()) if e[0] == "open"]
                r.check(self.norm(src) in ups, DONE, where, "%s is stored, which is not the upload" % src, st.path(), key="source")
        elif what == "open":
            a = self.paths.inside_or_none(st, paths[0])
            m = str(cval(args[1])) if len(args) > 1 and is_const(args[1]) else "r"
            if a is not None and a[0] == "R" and set(m) & set("wax+"):
                r.check("x" in m or self.free(eng, st, paths[0], name), FREE, where, "%s is opened for writing: nothing says that the name is "
                        "not in use" % paths[0], st.path(), key="free")
        return None

    def free(self, eng, st, dst, name):
        if name in ("os.link", "os.symlink", "os.mkdir"):
            return True                 # fail if the name exists
        for fn in ("os.path.exists", "os.path.lexists"):
            d = self.norm(call(fn, None, (dst,)))
            for k, v in st.facts.items():
                if v is False and self.norm(k) is d:
                    return True
        return False

    def folder_of(self, t):
        """(folder, last component) of a path put together."""
        t = self.norm(t)
        if is_call(t, "os.path.join"):
            xs = t.args[2]
            last = xs[-1]
            if len(xs) == 2:
                return xs[0], last
            return call("os.path.join", None, xs[:-1]), last
        if t.op == "fmt":
            xs = list(t.args[0])
            for i in range(len(xs) - 1, 0, -1):
                x = xs[i]
                if is_const(x) and "/" in str(cval(x)):
                    if str(cval(x)) != "/":
                        a, b = str(cval(x)).rsplit("/", 1)
                        head = xs[:i] + ([const(a)] if a else [])
                        tail = ([const(b)] if b else []) + xs[i + 1:]
                    else:
                        head, tail = xs[:i], xs[i + 1:]
                    h = head[0] if len(head) == 1 else mk("fmt", tuple(head))
                    return h, tail[0] if len(tail) == 1 else mk("fmt", tuple(tail))
        return None, None

    def placed(self, eng, st, dst, where):
        """The destination's folder exists, or is the remote directory because the one asked for does not."""
        r = self.ctx
        facts = {self.norm(k): v for k, v in st.facts.items()}
        folders = [k for k in facts if is_call(k, "os.path.isdir", "os.path.exists") and self.asked(k.args[2][0])]
        for leaf in self.leaves(eng, dst):
            t = self.norm(leaf)
            dirname, last = self.folder_of(t)
            root = dirname is not None and self.paths.core(dirname) is self.paths.remote
            if dirname is None or not root and self.request(dirname) and not self.is_parent(dirname):
                # the path asked for itself
                dirname = mk("item", call("os.path.split", None, (t,)), const(0))
                last = t
                root = False
            name_ok = last is not None and self.request(last)
            known = [facts[k] for k in folders]
            if leaf is not dst:
                # merged over the tries: the folder is judged where it is chosen
                good = root or self.is_parent(dirname)
            elif root and not self.is_whole(t):
                good = False in known or not folders and self.flat()
            else:
                good = facts.get(call("os.path.isdir", None, (dirname,))) is True or True in known
            r.check(good, WHERE, where, "it is stored in %s, although %s" % (dirname, "that may not exist" if not root else
                                                                        "its own folder may exist"), st.path(), key="folder %s" % root)
            r.check(name_ok, WHERE, where, "it is stored under the name %s, which is not the one asked for" % last, st.path(), key="name")

    def flat(self):
        return False

    def is_whole(self, t):
        """The path asked for, below the remote directory."""
        return is_call(t, "os.path.join") and len(t.args[2]) == 2 and not any(
            is_call(x, "os.path.split", "os.path.basename") for x in subterms(t.args[2][1])) and self.request(t.args[2][1])

    def is_parent(self, t):
        return t.op == "item" and is_call(t.args[0], "os.path.split")

    def asked(self, t):
        return self.request(t) and self.is_parent(t)

    def request(self, t):
        p = self.fields["path"]
        return p in set(subterms(t))

    def backedge(self, eng, st, node):
        if "request" not in st.mon:
            return st
        if isinstance(node, ast.For):
            it = node.iter
            names = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(it) if isinstance(n, (ast.Name, ast.Attribute))}
            if "count" not in names and "cycle" not in names and "repeat" not in names:
                self.ctx.count("bounded loops")
                return st
            self.ctx.check(any(k.op == "cmp" and any(x.op == "elem" for x in subterms(k)) and any(is_const(x) for x in k.args[1:])
                               for k in st.facts), BOUND, eng.loc(st, node), "the loop over %s has no bound" % ast.unparse(it), st.path(),
                           key="bound")
            return st
        if not isinstance(node, ast.While):
            return st
        fr = st.frames[st.cur]
        vals = [v for k, v in fr.items() if isinstance(v, T)]
        if not any(x.op == "phi" and str(x.args[1]).startswith(st.cur + ".") for v in vals for x in subterms(v)):
            return st
        self.ctx.count("bounded loops")
        good = False
        for v in vals:
            if v.op == "bin" and v.args[0] in ("+", "-") and v.args[1].op == "phi" and is_const(v.args[2]):
                step = cval(v.args[2]) * (1 if v.args[0] == "+" else -1)
                for k, b in st.facts.items():
                    if k.op == "cmp" and k.args[0] in ("lt", "le") and b in (True, False):
                        x, y = k.args[1], k.args[2]
                        less = b
                        if not less:
                            x, y = y, x
                        # x is below y (or equal)
                        if step > 0 and x in (v, v.args[1]) and is_const(y) or step < 0 and y in (v, v.args[1]) and is_const(x):
                            good = True
                    if k.op == "cmp" and k.args[0] == "eq" and b is False and any(x in (v, v.args[1]) for x in k.args[1:]) and any(
                            is_const(x) for x in k.args[1:]) and abs(step) == 1:
                        good = True
        self.ctx.check(good, BOUND, eng.loc(st, node), "the loop goes on without a bound on its tries", st.path(), key="bound")
        return st


def run(ctx):
    ctx.rule("in the handler of write_remote_file: (1) whatever is moved or copied to the remote directory goes to a path that is known "
             "on this code path not to exist; (2) that path is the one asked for, or its name or a variant of it in a folder which is "
             "the parent asked for if that is known to be a directory, and the remote directory if it is known not to be; (3) a "
             "loop that tries names has a counter with a bound; (4) on every path that ends with a success answer for a final block, "
             "the upload (the file written) was moved and not removed; (5) data is written to a file opened at the upload's path "
             "without truncating or appending, after a seek to the request's offset, and exactly the request's data")
    ctx.assume("no other program creates the name between the test and the move")
    mon = Stored(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    for st, ws, rd in requests(eng, mon):
        cands = [v for v in eng.obj(st, rd).items.values() if isinstance(v, T) and is_call(v, "os.path.abspath", "os.path.realpath",
                                                                                          "os.path.expanduser", "os.path.normpath")]
        consts = [v for v in eng.obj(st, rd).items.values() if isinstance(v, T) and is_const(v) and isinstance(cval(v), str)
                  and cval(v) not in ("/var/tmp", "/tmp")]
        roots = {Paths.core(None, v) for v in (cands or consts)}
        if len(roots) != 1:
            raise AnalysisError("the remote directory is not a single attribute")
        mon.paths = Paths(eng, roots.pop())
        s0 = st.setmon(request=KIND, done=())
        s0.trace = None
        mon.fields = fields_of(eng, st)
        out, fields = request(eng, s0, ws, KIND)
        assert fields == mon.fields
        for s, _ in out.rets:
            finished(ctx, eng, mon, s, fields)
    for n in ("moves", "data written", "finals"):
        ctx.need(n, 1)


def fields_of(eng, st):
    from ..terms import sym
    from .. import packets
    row = [r for r in packets.table(eng, st) if r[1] == KIND][0]
    r = {}
    for f in row[3]:
        types = f[1]
        t = "bytes" if types and set(types) <= {"bytes", "str"} and "bytes" in types else "int" if types and "int" in types else None
        r[f[0]] = sym("request:" + f[0], t)
    return r


def finished(ctx, eng, mon, s, fields):
    done = s.mon.get("done", ())
    modes = {e[3]: (e[1], e[2]) for e in done if e[0] == "open"}
    # data
    for i, e in enumerate(done):
        if e[0] != "write":
            continue
        ctx.count("data written")
        where = FILE
        path, mode = modes.get(e[1], (None, "?"))
        ctx.check(path is not None, DATA, where, "data is written to %s" % e[1], s.path(), key="file")
        if path is None:
            continue
        seeks = [x[2] for x in done[:i] if x[0] == "seek" and x[1] is e[1]]
        writes = [x for x in done[:i] if x[0] == "write" and x[1] is e[1]]
        zero = eng.decide(s, eng.mkeq(fields["offset"], const(0))) is True
        ctx.check(seeks and same(seeks[-1], fields["offset"]) and not writes or zero and not seeks and not writes, DATA, where,
                  "data is written at %s, not the offset given" % (seeks[-1] if seeks else "the start"), s.path(), key="offset")
        if "w" in mode:
            ctx.bad(DATA, where, "%s is opened with %r, which drops what was written before" % (path, mode), s.path(), key="truncated")
        if "a" in mode:
            ctx.bad(DATA, where, "%s is opened with %r, which appends wherever the offset is" % (path, mode), s.path(), key="append")
        if "b" not in mode:
            ctx.bad(DATA, where, "%s is opened with %r, as text" % (path, mode), s.path(), key="text")
        ctx.check(same(e[2], fields["data"]), DATA, where, "%s is written, not the data of the request" % e[2], s.path(), key="data")
        given = eng.decide(s, fields["device_path"])
        if given is None:
            given = eng.decide(s, mk("call", ".decode", fields["device_path"], (const("utf-8"),), (), None))
        new = [x[1] for x in done[:i] if x[0] == "open" and set(x[2]) & set("wx")]
        ok = mon.norm(path) is mon.norm(fields["device_path"]) or any(mon.norm(path) is mon.norm(x) for x in new) or \
            mon.paths.inside_or_none(s, path) is not None and fields["id"] in set(subterms(path)) and given is False
        ctx.check(ok, DATA, where, "data is written to %s, not to the upload" % path, s.path(), key="upload")
    sent = answers(eng, s)
    if len(sent) != 1 or sent[0] is None or sent[0][0] != "write_remote_file_result":
        return                  # C26
    fail = sent[0][1]["fail"]
    if not (is_const(fail) and not cval(fail)):
        return
    # a success
    given = eng.decide(s, fields["device_path"])
    if given is None:
        given = eng.decide(s, mk("call", ".decode", fields["device_path"], (const("utf-8"),), (), None))
    if given is False:
        fresh = [e for e in done if e[0] == "open" and set(e[2]) & set("wx") or e[0] == "truncate"]
        ctx.check(bool(fresh), DATA, FILE, "a new upload may begin with what an earlier one left", s.path(), key="fresh")
    if eng.decide(s, fields["final"]) is not True and [e for e in done if e[0] in ("move", "copy")]:
        ctx.bad(DONE, FILE, "an upload is stored although it may not be complete", s.path(), key="early")
        return
    if eng.decide(s, fields["final"]) is False:
        ups = [e for e in done if e[0] in ("move", "remove")]
        ctx.check(not ups, DONE, FILE, "an upload that is not complete is moved or removed: %s" % (ups[-1:],), s.path(), key="early")
        return
    ctx.count("finals")
    moves = [i for i, e in enumerate(done) if e[0] in ("move", "copy")]
    ctx.check(bool(moves), DONE, FILE, "success is reported for a final block, but the upload was not moved into place (%s)" % (
        [e[0] for e in done][-4:],), s.path(), key="moved")
    if moves:
        dst = done[moves[-1]][2]
        gone = [e for e in done[moves[-1]:] if e[0] == "remove" and mon.norm(e[1]) is mon.norm(dst)]
        before = [e for e in done[:moves[-1]] if e[0] == "remove" and mon.norm(e[1]) is mon.norm(done[moves[-1]][1])]
        ctx.check(not gone and not before, DONE, FILE, "the upload is removed although success is reported", s.path(), key="removed")
        src = done[moves[-1]][1]
        if done[moves[-1]][0] == "copy":
            tried = [e for e in done[moves[-1]:] if e[0] == "remove" and mon.norm(e[1]) is mon.norm(src) or e[:2] == ("failed", "remove")]
            ctx.check(bool(tried), DONE, FILE, "the upload is copied into place, and its partial file is left behind", s.path(), key="left")
        late = [e for e in done[moves[-1]:] if e[0] in ("write", "open")]
        ctx.check(not late, DONE, FILE, "data is written after the upload was moved", s.path(), key="late")
