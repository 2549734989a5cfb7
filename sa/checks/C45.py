"""C45: the machine-defined tags are the words the tag script printed."""

import re

from ..terms import T, mk, sym, call, const, is_const, cval, is_call, subterms, NONE, TRUE, FALSE
from ..engine import Monitor
from ..state import HObj
from ..program import AnalysisError
from ..world import is_log, const_of

TECHNIQUE = ("abstract interpretation of the tag collector under every outcome of the script, with an abstract domain of texts that are "
             "split at a known set of separators; the separators of a pattern are decided from the pattern itself")
NOTE = "What the script prints is any sequence of bytes; three words of it are followed."
MODULE = "dataplicity.tags"
RULE = "the tags are the words that were printed"
FAIL = "a script that fails has no tags to report"
NONE_RULE = "without a script there are no tags"
BYTES = "any bytes may be printed"
OUTPUT = (sym("printed", "bytes"), sym("printed later", "bytes"))
WHITE = frozenset(" \t\n\r\x0b\x0c")
SEPS = WHITE | {","}
OTHER = [chr(c) for c in range(33, 127) if chr(c) != ","]
LINES = frozenset("\n\r")
EXISTS = ("os.path.exists", "os.path.isfile", "os.access", "os.path.lexists")
RUNS = ("subprocess.check_output", "subprocess.run", "subprocess.Popen")
LENIENT = ("ignore", "replace", "backslashreplace", "surrogateescape")
WORDS = 3


def text(done, i):
    """The part number i of what is left once split at these characters."""
    return mk("printed text", "".join(sorted(done)), i)


def is_text(t):
    return isinstance(t, T) and t.op == "printed text"


def matches(pattern, flags=0):
    """The characters a pattern matches by itself; None unless it is one of single characters (or their repetition)."""
    try:
        r = re.compile(pattern, flags)
    except re.error:
        return None
    if r.groups or r.fullmatch(""):
        return None
    res = {c for c in list(SEPS) + OTHER + ["\x00", "\u00e9", "\u4e2d"] if r.fullmatch(c)}
    for c in res:
        for d in res:
            if r.match(c + d) is None:
                return None
    return res or None


class Tags(Monitor):
    """mon: there = the script exists; ran = how running it ended."""

    def __init__(self, ctx):
        self.ctx = ctx

    def exc(self, eng, st, node, name, exact=False):
        return ("raise", st, (name, exact, frozenset(), mk("exc", name, exact, eng.site(st, node), None)))

    def raises(self, eng, st, name, base, args, kwargs):
        return []

    def decide(self, eng, st, t):
        if is_text(t):
            return None if set(t.args[0]) >= SEPS and t.args[1] == "?" else True
        if is_call(t, "len") and is_text(t.args[2][0]):
            return True
        if t.op == "cmp" and t.args[0] in ("eq", "is") and any(is_text(x) for x in t.args[1:]) and any(
                is_const(x) and cval(x) in ("", None) for x in t.args[1:]):
            return False
        if t.op == "cmp" and is_call(t.args[1], "len") and is_text(t.args[1].args[2][0]) and is_const(t.args[2]):
            # an unknown length, above zero
            k = cval(t.args[2])
            if type(k) is int and k <= 0:
                return {"lt": False, "le": False, "gt": True, "ge": True, "eq": False}.get(t.args[0])
        return None

    def items_of(self, eng, st, v):
        if is_call(v, "sorted", "reversed") and v.args[2]:
            return eng.iter_items(st, v.args[2][0])     # the order of tags has no meaning
        return None

    def parts(self, eng, st, t, seps, node, empties):
        """t split at these characters."""
        done = frozenset(t.args[0]) | seps
        if done == frozenset(t.args[0]):
            items = [t]
        else:
            items = [text(done, "%s.%d" % (t.args[1], i)) for i in range(WORDS)]
            if empties:
                items[1:1] = [const("")]
                items.append(const(""))
            st = st.setmon(splits=st.mon.get("splits", frozenset()) | {t.args[1]})
        return eng.new(st, HObj("list", items=tuple(items)), node)

    def split(self, eng, st, t, sep, node):
        """str.split()."""
        if sep is None or sep is NONE:
            return self.parts(eng, st, t, WHITE, node, False)
        s = const_of(sep)
        if not isinstance(s, str) or not s:
            raise AnalysisError("the tags are split at %s" % sep)
        return self.parts(eng, st, t, frozenset(s) if len(s) == 1 else frozenset(), node, True)

    def lazy_items(self, eng, st, name, f, it, node):
        items = eng.iter_items(st, it)
        if items is None:
            return None
        out = eng.newout()
        states = [(st, ())]
        for x in items:
            nxt = []
            for s, got in states:
                if name == "filter" and f is NONE or f.op == "ext" and f.args[0] in ("bool", "builtins.bool"):
                    vals = [(s, x)]
                else:
                    vals = eng.call_value(s, f, (x,), (), node, out)
                for s2, v in vals:
                    if name == "map":
                        nxt.append((s2, got + (v,)))
                    else:
                        for s3, b in eng.split(s2, v):
                            nxt.append((s3, got + (x,) if b else got))
            states = nxt
        res = [("raise", s, x) for s, x in out.raises]
        for s, got in states:
            s, v = eng.new(s, HObj("list", items=got), node)
            res.append(("ret", s, v))
        return res

    def by_pattern(self, eng, st, how, pattern, flags, t, node):
        p = const_of(pattern)
        if not isinstance(p, str) or any(const_of(f) is None for f in flags):
            raise AnalysisError("the tags are found with the pattern %s" % pattern)
        m = matches(p)
        where = eng.loc(st, node)
        if how == "split":
            if m is None:
                self.ctx.bad(RULE, where, "the pattern %r is not one of separators" % p, st.path(), key="pattern")
                return self.parts(eng, st, t, frozenset(), node, True)
            self.ctx.check(not m - SEPS, RULE, where, "words are cut at %s too" % sorted(m - SEPS)[:5], st.path(), key="cut")
            return self.parts(eng, st, t, frozenset(m), node, True)
        if m is None:
            raise AnalysisError("the tags are found with the pattern %r" % p)
        all_ = set(list(SEPS) + OTHER)
        missing = set(OTHER) - m
        self.ctx.check(not missing, RULE, where, "words are cut at %s too" % sorted(missing)[:5], st.path(), key="cut")
        return self.parts(eng, st, t, frozenset(all_ - m) & SEPS, node, False)

    def call(self, eng, st, name, base, args, kwargs, node):
        if not isinstance(name, str):
            return None
        where = eng.loc(st, node)
        kw = dict(kwargs)
        if name in EXISTS:
            there = st.mon.get("there")
            if there is not None:
                return [("ret", st, const(there))]
            return [("ret", st.setmon(there=True), TRUE), ("ret", st.setmon(there=False), FALSE)]
        if name in RUNS:
            self.ctx.count("runs")
            if st.mon.get("there") is False:
                return [self.exc(eng, st.setmon(ran="missing"), node, "FileNotFoundError", True)]
            if name != "subprocess.check_output" or kw.get("universal_newlines", kw.get("text", NONE)) not in (NONE, FALSE):
                raise AnalysisError("the tag script is run by %s" % name)
            return [("ret", st.setmon(ran="ok"), OUTPUT[st.mon["turn"]]),
                    self.exc(eng, st.setmon(ran="not run"), node, "OSError"),
                    self.exc(eng, st.setmon(ran="failed"), node, "subprocess.CalledProcessError", True),
                    self.exc(eng, st.setmon(ran="failed"), node, "Exception", True)]
        raw = base if name == ".decode" else args[0] if name in ("str", "codecs.decode") and args else None
        if raw in OUTPUT:
            got = text((), str(OUTPUT.index(raw)))
            rest = list(args[1:] if name != ".decode" else args)
            errors = kw.get("errors", rest[1] if len(rest) > 1 else NONE)
            enc = str(const_of(kw.get("encoding", rest[0] if rest else const("utf-8"))))
            if const_of(errors) not in LENIENT and enc.lower().replace("-", "_") not in ("latin_1", "iso_8859_1", "latin1"):
                return [("ret", st, got), self.exc(eng, st.setmon(ran="undecodable"), node, "UnicodeDecodeError", True)]
            return [("ret", st, got)]
        if name in ("map", "filter") and len(args) == 2:
            return self.lazy_items(eng, st, name, args[0], args[1], node)
        if name in ("dict.fromkeys", "collections.OrderedDict.fromkeys") and args and eng.iter_items(st, args[0]) is not None:
            items = eng.iter_items(st, args[0])
            s, v = eng.new(st, HObj("list", items=tuple(x for i, x in enumerate(items) if x not in items[:i])), node)
            return [("ret", s, v)]
        if base is not None and is_text(base):
            if name in (".strip", ".rstrip", ".lstrip") and (not args or isinstance(const_of(args[0]), str)
                                                              and set(const_of(args[0])) <= SEPS):
                # of a word nothing; of more its ends, which are no words
                return [("ret", st, base)]
            if name == ".split":
                m = kw.get("maxsplit", args[1] if len(args) > 1 else NONE)
                self.ctx.check(m is NONE or const_of(m) == -1, RULE, where, "it is split at most %s times" % m, st.path(), key="most")
                s, v = self.split(eng, st, base, kw.get("sep", args[0] if args else None), node)
                return [("ret", s, v)]
            if name == ".splitlines":
                s, v = self.parts(eng, st, base, LINES, node, False)
                return [("ret", s, v)]
            if name == ".replace" and len(args) == 2:
                a, b = const_of(args[0]), const_of(args[1])
                if isinstance(a, str) and isinstance(b, str) and len(a) == 1 and len(b) == 1 and a in SEPS and b in SEPS:
                    # from now on the two are one
                    if frozenset(b) <= WHITE:
                        return [("ret", st, mk("printed text", base.args[0] + (a if a not in base.args[0] else ""),
                                               base.args[1]) if a not in WHITE else base)]
                raise AnalysisError("%s is replaced in the tags by %s" % (args[0], args[1]))
        if name in ("re.split", "re.findall") and len(args) > 1 and is_text(args[1]):
            extra = list(args[2:]) + list(kw.values())
            self.ctx.check(not extra or all(const_of(x) == 0 for x in extra), RULE, where, "it is split with limits or flags", st.path(),
                           key="flags")
            s, v = self.by_pattern(eng, st, name[3:], args[0], [], args[1], node)
            return [("ret", s, v)]
        if name in (".split", ".findall") and base is not None and is_call(base, "re.compile") and args and is_text(args[0]):
            s, v = self.by_pattern(eng, st, name[1:], base.args[2][0], [], args[0], node)
            return [("ret", s, v)]
        return None


def word(t):
    """(the word, how much of it): of an entry of the tags."""
    n = None
    while t.op == "slice":
        lo, hi = t.args[1], t.args[2]
        if not (lo is NONE or const_of(lo) == 0) or t.args[3:] not in ((), (NONE,)):
            return None, None
        if hi is not NONE:
            k = const_of(hi)
            if type(k) is not int or k < 0:
                return None, None
            n = k if n is None else min(n, k)
        t = t.args[0]
    return (t, n) if is_text(t) else (None, None)


def run(ctx):
    ctx.rule("the tag collector is followed with the tag script there or not, and every outcome of running it: it gives no tags without "
             "a script; it raises an error if the script fails; otherwise, whatever bytes are printed, it gives all of the words "
             "separated by commas and any white space, with nothing left but the first 25 characters of each")
    ctx.assume("subprocess.check_output() raises CalledProcessError or another exception if the script fails, OSError if it can not "
               "be run; all but the ASCII separators are taken as parts of words")
    mon = Tags(ctx)
    eng = ctx.engine(mon)
    st = eng.start(MODULE).setmon(turn=0)
    f = mk("func", eng.find_func("get_tag_list", MODULE), None)
    where = MODULE + ":get_tag_list"
    first = collect(ctx, eng, st, f, where)
    for s in first:
        # the same again: the script may be there or not, and print something else by then
        s = s.setmon(turn=1, there=None, ran=None)
        s.facts = {}
        collect(ctx, eng, s, f, where + " called again")
    ctx.need("runs", 2)
    ctx.need("ways through the collector", 8)


def collect(ctx, eng, st, f, where):
    out = eng.invoke(st, f, ())
    if out.exits:
        ctx.bad(FAIL, where, "the process may end")
    for s, x in out.raises:
        how = s.mon.get("ran")
        ctx.count("ways through the collector")
        ctx.check(s.mon.get("there") is not False, NONE_RULE, where, "%s is raised" % x[0], s.path(), key="raised without")
        ctx.check(how != "ok", BYTES, where, "%s is raised though the script worked" % x[0], s.path(), key="raised ok")
        ctx.check(how != "undecodable", BYTES, where, "%s is raised if they can not be decoded" % x[0], s.path(), key="undecodable")
    for s, v in out.rets:
        how = s.mon.get("ran")
        ctx.count("ways through the collector")
        if how in ("failed", "undecodable"):
            ctx.bad(FAIL if how == "failed" else BYTES, where, "%s is returned as its tags if it failed" % v if how == "failed" else
                    "what it printed may not be decoded, and %s is returned" % v, s.path(), key=how)
            continue
        items = eng.iter_items(s, v)
        if how is None and s.mon.get("there") is not False:
            ctx.bad(RULE, where, "%s is returned without running the script" % v, s.path(), key="not run")
            continue
        if how in (None, "missing", "not run"):
            ctx.check(items == (), NONE_RULE, where, "%s is returned" % v, s.path(), key="without")
            continue
        if items is None:
            raise AnalysisError("the tags are %s" % v)
        tags(ctx, where, s, items)
    ctx.check(any(s.mon.get("ran") == "ok" for s, _ in out.rets), RULE, where, "no tags are ever given", key="never given")
    return [s for s, _ in out.rets] + [s for s, _ in out.raises]


def tags(ctx, where, s, items):
    ctx.count("lists of tags")
    got = []
    for t in items:
        w, n = word(t)
        if not ctx.check(w is not None, RULE, where, "a tag is %s" % t, s.path(), key="tag"):
            return
        left = SEPS - set(w.args[0])
        ctx.check(not left, RULE, where, "words are not separated at %r" % "".join(sorted(left)), s.path(), key="separators")
        ctx.check(n == 25, RULE, where, "a tag is cut to %s characters" % n, s.path(), key="cut to")
        got.append(w.args[1])
    ctx.check(all(x.split(".")[0] == str(s.mon["turn"]) for x in got), RULE, where, "they are those of a former run", s.path(), key="former")
    want = leaves(s, str(s.mon["turn"]))
    lost = want - set(got)
    ctx.check(not lost and len(want) >= WORDS, RULE, where, "%d of %d words are lost" % (len(lost), len(want)), s.path(), key="all")


def leaves(s, i):
    """The parts of a text that are left once split as it was."""
    if i not in s.mon.get("splits", ()):
        return {i}
    return {x for k in range(WORDS) for x in leaves(s, "%s.%d" % (i, k))}
