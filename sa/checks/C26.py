"""C26: every remote file request gets one truthful answer."""

from ..terms import T, mk, const, is_const, cval, is_call, call, subterms, sym, NONE
from ..program import AnalysisError
from ..files import Journal, requests, request, answers
from .. import linear, packets

TECHNIQUE = ("abstract interpretation of the handlers of remote file requests over all paths, failures of every call included; "
             "per path, the packets sent are compared with the journal of completed file operations")
ONE = "a request gets exactly one answer, of its own type and id"
TRUE_ = "success is reported only if the operation was carried out, failure otherwise"
WHAT = "a successful answer carries what was obtained"
TEXT = "the paths and ids of a request are UTF-8"
ECHO = "a failure answer repeats what was asked for"
RESULT = {"open_remote_file": ("open_remote_file_result", "upload_id"), "read_remote_file": ("read_remote_file_result", "upload_id"),
          "write_remote_file": ("write_remote_file_result", "id")}


def plain(t):
    while is_call(t, ".encode", ".decode") and t.args[1] is not None:
        t = t.args[1]
    return t


def deep(t):
    """Conversions between text and bytes left out, throughout."""
    if t.op in ("const", "sym", "phi", "elem", "ref", "big", "exc"):
        return t
    t = plain(t)
    if t.op in ("const", "sym", "phi", "elem", "ref", "big", "exc"):
        return t

    def rec(x):
        return deep(x) if isinstance(x, T) else tuple(rec(y) for y in x) if isinstance(x, tuple) else x

    return mk(t.op, *tuple(rec(a) for a in t.args))


def same(a, b):
    return a is b or deep(a) is deep(b)


def files(done):
    return {e[3]: e[1] for e in done if e[0] == "open"}


class Requests(Journal):

    def call(self, eng, st, name, base, args, kwargs, node):
        if name == ".decode" and base is not None and "request" in st.mon and any(
                x.op == "sym" and str(x.args[0]).startswith("request:") for x in subterms(base)):
            codec = args[0] if args else dict(kwargs).get("encoding", const("utf-8"))
            ok = is_const(codec) and isinstance(cval(codec), str) and cval(codec).lower().replace("_", "-") in ("utf-8", "utf8")
            self.ctx.check(ok, TEXT, eng.loc(st, node), "%s is decoded as %s" % (base, codec), st.path(), key="codec")
        return Journal.call(self, eng, st, name, base, args, kwargs, node)


def run(ctx):
    ctx.rule("on every path through the handlers of open/read/write_remote_file, with every call that can fail failing, exactly one "
             "packet is sent, it has the request's result type and echoes its id; the fail code is 0 exactly if the operations of "
             "the request were completed on that path: the copy to the snapshot and its size; opening, seeking and reading the "
             "snapshot; seeking and writing the data if there is any, and moving the upload into place if it is final; the size, "
             "data, position and place in a successful answer are the results of those operations; a failure answer repeats the "
             "request's offset and size, carries no data and gives a reason; text in requests is decoded as UTF-8")
    ctx.assume("sending a packet does not raise; a terminated process (MemoryError, SystemExit) sends nothing")
    mon = Requests(ctx)
    eng = ctx.engine(mon)
    mon.prepare(eng)
    for st, ws, rd in requests(eng, mon):
        for kind in sorted(RESULT):
            s0 = st.setmon(request=kind, done=())
            s0.trace = None
            out, fields = request(eng, s0, ws, kind)
            ctx.count("requests")
            for s, exc in out.raises:
                ctx.bad(ONE, handler(eng, kind), "handling %s ends with %s instead of an answer, having sent %d packets" % (
                    kind, exc[0], len(s.mon.get("sent", ()))), s.path(), key="%s raises" % kind)
            for s, how in out.exits:
                ctx.bad(ONE, handler(eng, kind), "handling %s ends the agent (%s)" % (kind, how), s.path(), key="%s exits" % kind)
            n = 0
            for s, _ in out.rets:
                n += 1 if judge(ctx, eng, s, kind, fields) else 0
            ctx.count("successes of " + kind, n)
    for kind in RESULT:
        ctx.need("successes of " + kind, 1)


def handler(eng, kind):
    from .C03 import handlers
    cid = eng.find_class("WSClient", "dataplicity.m2m.wsclient")
    for h in handlers(eng, cid).get(packets.numbers(eng).get(kind), ()):
        q = next((q for q, f in eng.funcs.items() if f.cls == cid and f.node.name == h), None)
        if q:
            return "%s:%d %s" % (eng.mods[eng.funcs[q].module].rel, eng.funcs[q].node.lineno, h)
    return "dataplicity/remote_directory.py"


def judge(ctx, eng, s, kind, fields):
    where = handler(eng, kind)
    sent = answers(eng, s)
    done = s.mon.get("done", ())
    last = [str(e[0]) + (" " + str(e[1]) if e[0] == "failed" else "") for e in done][-3:]
    ctx.count("paths")
    want, idf = RESULT[kind]
    ctx.check(len(sent) == 1, ONE, where, "%d answers to %s (after: %s)" % (len(sent), kind, last), s.path(), key="%s count" % kind)
    if not sent:
        return False
    if None in sent:
        ctx.bad(ONE, where, "the answer to %s is not a packet of known shape: %s" % (kind, s.mon.get("sent")), s.path(), key="%s shape" % kind)
        return False
    name, a = sent[0]
    ctx.check(name == want, ONE, where, "%s is answered with %s" % (kind, name), s.path(), key="%s type" % kind)
    if name != want:
        return False
    ctx.check(same(a[idf], fields[idf]), ONE, where, "the answer to %s carries the id %s, not the request's" % (kind, a[idf]), s.path(),
              key="%s id" % kind)
    fail = a["fail"]
    good = None
    if is_const(fail):
        good = not cval(fail)
    else:
        d = eng.decide(s, fail)
        good = None if d is None else not d
    if good is None:
        ctx.bad(TRUE_, where, "the fail code of the answer to %s is %s" % (kind, fail), s.path(), key="%s code" % kind)
        return False
    complete, results = required(eng, s, kind, fields, done)
    ctx.check(good == complete[0], TRUE_, where, "%s is answered with %s although %s (last: %s)" % (
        kind, "success" if good else "failure %s" % a.get("fail_reason"), complete[1], last), s.path(), key="%s truth %s" % (kind, good))
    if not good:
        n = call("len", None, (fields.get("data"),)) if "data" in fields else None
        want = {"open_remote_file": {}, "read_remote_file": {"offset": fields.get("offset"), "size": fields.get("size")},
                "write_remote_file": {"position": fields.get("offset"), "chunk_size": n}}[kind]
        for f, v in want.items():
            ctx.check(same(a[f], v) or eng.decide(s, eng.mkeq(a[f], v)) is True or f == "chunk_size" and empty(eng, s, a[f], fields["data"]),
                      ECHO, where, "the %s in the failure answer to %s is %s, not %s" % (f, kind, a[f], v), s.path(), key="%s %s" % (kind, f))
        if "size" in a and kind == "open_remote_file":
            ctx.check(is_const(a["size"]) and cval(a["size"]) in (-1, 0), ECHO, where, "a failure answer to %s carries the size %s" % (
                kind, a["size"]), s.path(), key="%s size" % kind)
        if "data" in a:
            ctx.check(is_const(a["data"]) and not cval(a["data"]), ECHO, where, "a failure answer to %s carries the data %s" % (
                kind, a["data"]), s.path(), key="%s data" % kind)
        why = a.get("fail_reason")
        ctx.check(why is None or not is_const(why) or bool(cval(why)), ECHO, where, "a failure answer to %s gives no reason" % kind,
                  s.path(), key="%s reason" % kind)
    if not good or not complete[0]:
        return False
    for f, ok in results.items():
        ctx.check(ok(a[f]), WHAT, where, "the %s in the answer to %s is %s" % (f, kind, a[f]), s.path(), key="%s %s" % (kind, f))
    return True


def empty(eng, s, v, data):
    return is_const(v) and cval(v) == 0 and eng.decide(s, data) is False


def required(eng, s, kind, fields, done):
    """((completed, why), {answer field: predicate})."""
    opened = files(done)
    if kind == "open_remote_file":
        copies = [i for i, e in enumerate(done) if e[0] == "copy" and e[1] is not e[2]]
        sizes = [(i, e) for i, e in enumerate(done) if e[0] == "size"]
        if not copies:
            # a copy made by hand
            ws = [(i, e) for i, e in enumerate(done) if e[0] == "write" and e[1] in opened]
            copies = [i for i, e in ws]
            dst = opened[ws[-1][1][1]] if ws else None
        else:
            dst = done[copies[-1]][2]
        if not copies:
            return (False, "no snapshot was made"), {}
        if any(e[0] == "failed" for e in done[copies[-1]:]):
            return (False, "the snapshot's size could not be determined"), {}
        of = [e[2] for i, e in sizes if same(e[1], dst) and i > copies[-1]]
        if any(e[0] == "remove" and same(e[1], dst) for e in done[copies[-1]:]):
            return (False, "the snapshot was removed"), {}
        return (True, "the snapshot was made"), {
            "size": lambda v: v in of or any(is_call(x, "os.stat", "os.fstat", ".tell") for x in subterms(v))}
    if kind == "read_remote_file":
        reads = [(i, e) for i, e in enumerate(done) if e[0] == "read" and e[1] in opened]
        if not reads:
            return (False, "nothing was read"), {}
        i, r = reads[-1]
        if any(e[0] == "failed" for e in done):
            return (False, "reading failed"), {}
        pos = [e[2] for e in done[:i] if e[0] == "seek" and e[1] is r[1]]

        def data(v):
            if not (v is r[3] or v.op != "slice" and r[3] in set(subterms(v)) and not is_call(v, "len")):
                return False
            return True

        placed = pos and same(pos[-1], fields["offset"])
        if not placed and not (pos == [] and eng.decide(s, eng.mkeq(fields["offset"], const(0))) is True):
            return (True, "the snapshot was read"), {"data": lambda v: False}
        count = same(r[2], fields["size"]) or len(reads) > 1
        return (True, "the snapshot was read"), {
            "data": lambda v: data(v) and count, "offset": lambda v: same(v, fields["offset"]), "size": lambda v: same(
                v, fields["size"]) or is_call(v, "len")}
    # write_remote_file
    data = eng.decide(s, fields["data"])
    final = eng.decide(s, fields["final"])
    writes = [(i, e) for i, e in enumerate(done) if e[0] == "write" and e[1] in opened]
    wrote = writes and same(writes[-1][1][2], fields["data"])
    if data is not False:
        if not wrote:
            return (False, "the data was not written"), {}
        if any(e[0] == "failed" for e in done[writes[-1][0]:] if e[1] not in ("move", "copy", "remove")):
            return (False, "writing failed"), {}
    elif not writes:
        # an empty block: the file must be there
        if any(e[0] == "failed" and e[1] in ("open", "mkdir") for e in done):
            return (False, "the file was not created"), {}
    if any(e[0] == "failed" and e[1] in ("open", "mkdir", "seek", "write") for e in done):
        return (False, "writing failed"), {}
    moves = [i for i, e in enumerate(done) if e[0] in ("move", "copy")]
    if final is not False and not moves:
        return (False, "the upload was not moved into place"), {}
    n = call("len", None, (fields["data"],))
    total = linear.poly(mk("bin", "+", fields["offset"], n))

    def position(v):
        d = linear.sub(linear.poly(v), total)
        d = {k: x for k, x in d.items() if not (data is False and k and n in (k if isinstance(k, tuple) else (k,)))}
        return not any(d.values())

    given = eng.decide(s, fields["device_path"])
    if given is None:
        given = eng.decide(s, call(".decode", fields["device_path"], (const("utf-8"),)))
    new = [e[1] for e in done if e[0] == "open" and set(e[2]) & set("wxa")]
    ups = ([fields["device_path"]] if given is not False else []) + (new if given is not True else [])

    return (True, "the data was stored"), {
        "position": position, "chunk_size": lambda v: same(v, n) or empty(eng, s, v, fields["data"]),
        "device_path": lambda v: any(same(v, x) for x in ups)}

