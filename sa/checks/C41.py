"""C41: the thread that handles the server's messages never waits for a service."""

import ast

from .C32 import Locks

TECHNIQUE = ("reachability over the whole-program call graph (points-to, threads told apart) from the thread that receives messages "
             "to calls that wait, and a held-lock analysis for locks others hold while they wait")
NOTE = ("Waiting for the API (time-limited), for the file system, for a write to the server, a terminal or a local service, and for "
        "a thread to start is allowed; code of libraries is not looked into.")
RULE = "nothing that waits is reachable from the message loop"
LOCKED = "the message loop never takes a lock that is held while something waits"

EXT = {"time.sleep": "sleeps", "os.system": "waits for a command", "os.popen": "waits for a command", "os.wait": "waits for a process",
       "os.wait3": "waits for a process", "os.wait4": "waits for a process", "os.waitid": "waits for a process",
       "os.read": "reads the output of a process", "pty.spawn": "runs a process", "select.select": "polls",
       "socket.create_connection": "connects", "os.spawnlp": "waits for a command", "signal.pause": "waits", "signal.sigwait": "waits",
       "subprocess.call": "waits for a command", "subprocess.run": "waits for a command", "subprocess.check_call": "waits for a command",
       "subprocess.check_output": "waits for a command", "subprocess.getoutput": "waits for a command",
       "subprocess.getstatusoutput": "waits for a command",
       "os.scandir": "lists directories", "os.listdir": "lists directories", "os.walk": "lists directories",
       "glob.glob": "lists directories", "concurrent.futures.wait": "waits"}
METHODS = {"subprocess.Popen": {"wait": "waits for a process", "communicate": "waits for a process"},
           "select.poll": {"poll": "polls"}, "select.epoll": {"poll": "polls"},
           "socket.socket": {"recv": "reads from a service", "recv_into": "reads from a service", "recvfrom": "reads from a service",
                             "accept": "waits for a connection", "connect": "connects", "connect_ex": "connects"}}


class Calls(Locks):

    def __init__(self, ctx):
        self.every = []
        Locks.__init__(self, ctx)

    def calls_at(self, e, held):
        self.every.append((self.f, e, held))
        Locks.calls_at(self, e, held)

    def waiting(self, f, e):
        """What the call e waits for, itself, or None."""
        p = self.p
        if not isinstance(e, ast.Call):
            return None
        if (f.qual, id(e)) in p.joins:
            return "waits for a thread"
        name = e.func.attr if isinstance(e.func, ast.Attribute) else None
        if name in ("read", "readline", "readlines") and isinstance(e.func.value, ast.Attribute) and e.func.value.attr in (
                "stdout", "stderr"):
            return "reads the output of a process"
        for v in p.ev(e.func, f):
            if v[0] == "ext":
                if v[1] in EXT:
                    if v[1] == "select.select" and len(e.args) > 3 and zero(e.args[3]):
                        continue
                    return EXT[v[1]]
                if v[1] == "os.waitpid" and not any(isinstance(x, ast.Attribute) and x.attr == "WNOHANG" or isinstance(
                        x, ast.Name) and x.id == "WNOHANG" for a in e.args[1:] for x in ast.walk(a)):
                    return "waits for a process"
            elif v[0] == "of":
                made, name = v[1], v[2]
                if made[0] == "event" and name == "wait":
                    return "waits for an event"
                if made[0] == "cont" and name == "get" and self.queue(made):
                    return "waits for a queue"
                if made[0] == "extinst":
                    if made[1] == "select.poll" and name == "poll" and e.args and zero(e.args[0]):
                        continue
                    what = METHODS.get(made[1], {}).get(name)
                    if what:
                        return what
                    if made[1] == "?" and name in ("communicate", "waitpid"):
                        return "waits for a process"
        return None

    def queue(self, made):
        return "queue" in made[1].lower() or any(isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(
            n.func, "id", "")) in ("Queue", "SimpleQueue", "LifoQueue", "PriorityQueue") and str(n.lineno) in made[1]
            for n in self.p.nodes.values())


def zero(a):
    return isinstance(a, ast.Constant) and a.value == 0


def run(ctx):
    ctx.rule(RULE + " (sleeping, joining a thread, waiting for a process, its output, an event or a queue, connecting, polling, "
             "receiving, listing directories), except the wait for the next message")
    ctx.rule(LOCKED)
    ctx.assume("waiting for the API, which is limited in time, the file system and for what is written to be accepted is allowed")
    k = Calls(ctx)
    p = k.p
    callees = {}
    for (q, _), cs in p.calls.items():
        callees.setdefault(q, set()).update(cs)

    def reach(start):
        seen, work = {start: None}, [start]
        while work:
            q = work.pop(0)
            for c in sorted(callees.get(q, ())):
                if c not in seen:
                    seen[c] = q
                    work.append(c)
        return seen

    def chain(seen, q):
        r = []
        while q is not None:
            r.append(q.replace(":", "."))
            q = seen[q]
        return r[::-1]

    loops = set()
    for f, e, held in k.every:
        if isinstance(e, ast.Call) and any(v[0] == "ext" and v[1].split(".")[-1] == "persist" for v in p.ev(e.func, f)):
            loops.add(f.qual)
    roots = {q for s in p.threads.values() for q in s}
    entries = {q: reach(q) for q in sorted(roots)}
    entries = {q: s for q, s in entries.items() if loops & set(s)}
    # what waits, itself and with what it calls
    direct = {}
    for f, e, held in k.every:
        what = k.waiting(f, e)
        if what:
            direct.setdefault(f.qual, []).append((e, what))
    waits = set(direct)
    changed = True
    while changed:
        changed = False
        for q, cs in callees.items():
            if q not in waits and cs & waits:
                waits.add(q)
                changed = True
    busy = {}
    for f, e, held in k.every:
        if held.may() and ((f.qual in direct and any(x is e for x, _ in direct[f.qual])) or p.calls.get(
                (f.qual, id(e)), set()) & waits):
            for l in held.may():
                busy.setdefault(l, f.loc(e))
    for q0, seen in sorted(entries.items()):
        ctx.count("message loops")
        for q in sorted(seen):
            ctx.count("functions reached")
            f = p.fns[q]
            found = direct.get(q, ())
            ctx.ok(RULE, q)
            for e, what in found:
                ctx.bad(RULE, f.loc(e), "the thread that handles messages %s here" % what, chain(seen, q), key="%s %s" % (q, what))
        for f, node, ls, held, blocking in k.sites:
            if f.qual not in seen or not blocking:
                continue
            ctx.count("locks taken")
            for l in ls:
                ctx.check(l not in busy, LOCKED, f.loc(node), "the lock made at %s is taken, which is held during a wait at %s" % (
                    l[1].rpartition(":")[0].replace(" ", ":"), busy.get(l)), chain(seen, f.qual), key="%s lock" % f.qual)
    ctx.steps = len(k.every)
    ctx.count("calls", len(k.every))
    ctx.count("calls that wait", sum(len(v) for v in direct.values()))
    ctx.digest = p.digest
    ctx.need("message loops", 1)
    ctx.need("functions reached", 60)
    ctx.need("calls that wait", 5)
    ctx.need("locks taken", 3)
