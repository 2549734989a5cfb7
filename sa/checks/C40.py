"""Disk usage is computed from the file system's own figures."""

from ..terms import mk, sym, call, const, is_const, cval, is_call, subterms, NONE
from ..engine import Monitor
from ..rational import equal, fraction
from ..world import is_log, const_of

TECHNIQUE = "symbolic value provenance: each figure's formula over the statvfs fields, compared as fractions of polynomials"

MODULE = "dataplicity.disk_tools"
FIELDS = ("total", "used", "free", "percent")
SLIPS = ("KeyError", "IndexError", "NameError", "UnboundLocalError", "AttributeError", "TypeError", "ZeroDivisionError")
PATH = sym("path", "str")


class Figures(Monitor):
    def raises(self, eng, st, name, base, args, kwargs):
        return []

    def call(self, eng, st, name, base, args, kwargs, node):
        if name in ("os.statvfs", "shutil.disk_usage"):
            t = call(name, None, tuple(args), (), st.mon.get("turn"))
            return [("ret", st, t),
                    ("raise", st.setmon(failed=1), ("OSError", True, frozenset(), mk("exc", "OSError", True, eng.site(st, node), None)))]
        return None


def run(ctx):
    ctx.rule("disk_usage() is followed for any path, its file system's figures unknown: on each path to a result, total, used and free "
             "equal f_blocks*f_frsize, (f_blocks-f_bfree)*f_frsize and f_bavail*f_frsize as polynomials; percent is 100*used/(used+free), "
             "rounded to one digit, or 0 only if used+free is 0; a file system that cannot be asked gives an error, not a result")
    ctx.assume("figures of statvfs are non-negative integers; paths are encodable")
    mon = Figures()
    eng = ctx.engine(mon)
    st = eng.start(MODULE)
    f = eng.find_func("disk_usage", MODULE)
    first = eng.invoke(st, mk("func", f, None), (PATH,), ())
    judge(ctx, eng, first, f, None)
    # and once more, whatever the first time has left
    done = set()
    for s, _ in first.rets:
        s = s.setmon(failed=None, turn="again")
        s.facts = {}
        s.trace = None
        if s.key() not in done:
            done.add(s.key())
            judge(ctx, eng, eng.invoke(s, mk("func", f, None), (PATH,), ()), f, "again")
    ctx.need("results", 4)
    ctx.need("percentages", 2)


def judge(ctx, eng, out, f, turn):
    for s, v in out.rets:
        ctx.check(not s.mon.get("failed"), "a file system that cannot be asked gives an error", f, "a result is made up", s.path())
        if s.mon.get("failed"):
            continue
        figures(ctx, eng, s, v, f, turn)
    for s, x in out.raises:
        ctx.check(bool(s.mon.get("failed")), "every file system has a result", f,
                  "%s is raised for figures that the file system gave" % x[0], s.path(), key=x[0])
        ctx.check(not s.mon.get("failed") or x[0] not in SLIPS, "a file system that cannot be asked gives an error", f,
                  "%s is raised, not the error" % x[0], s.path(), key="error " + x[0])


def figures(ctx, eng, s, v, f, turn):
    ctx.count("results")
    got = {}
    for i, n in enumerate(FIELDS):
        r = eng.getattr_(s, v, n, eng.NODE, eng.newout())
        got[n] = r[0][1] if len(r) == 1 else None
    if any(x is None for x in got.values()):
        ctx.bad("the result names its figures", f, "the result is %s" % v, s.path())
        return
    q = call("os.statvfs", None, (PATH,), (), turn)
    a = lambda n: mk("attr", q, n)
    by = lambda op, x, y: mk("bin", op, x, y)
    total = by("*", a("f_blocks"), a("f_frsize"))
    used = by("-", total, by("*", a("f_bfree"), a("f_frsize")))
    free = by("*", a("f_bavail"), a("f_frsize"))
    for n, w in (("total", total), ("used", used), ("free", free)):
        ctx.check(equal(got[n], w), "a figure is that of the file system", f, "%s is %s" % (n, got[n]), s.path(), key=n)
    p = got["percent"]
    user = by("+", used, free)
    zero = any(nothing(t, val, user) for t, val in s.facts.items())
    if is_call(p, "round") and is_const(p.args[2][0]):
        p = p.args[2][0]
    if is_const(p) and cval(p) == 0:
        ctx.check(zero, "the percentage is that of the space for users", f, "percent is 0 whatever is used", s.path(), key="percent")
        return
    ctx.count("percentages")
    good = is_call(p, "round") and const_of(p.args[2][1]) == 1 if is_call(p, "round") and len(p.args[2]) == 2 else False
    x = p.args[2][0] if good else p
    good = good and equal(x, by("*", by("/", used, user), const(100)))
    ctx.check(good, "the percentage is that of the space for users", f, "percent is %s" % p, s.path(), key="percent")


def nothing(t, val, user):
    """The fact says that user, which is not negative, is 0."""
    same = lambda x: equal(x, user)
    if t.op != "cmp":
        return val is False and same(t)
    op, a, b = t.args
    if op in ("gt", "ge"):
        op, a, b = {"gt": "lt", "ge": "le"}[op], b, a
    return op == "eq" and val is True and const(0) in (a, b) and (same(a) or same(b)) \
        or op == "lt" and val is False and a is const(0) and same(b) or op == "le" and val is True and b is const(0) and same(a)
