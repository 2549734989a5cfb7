"""The program under analysis: parsed modules, functions, classes, exceptions.

Everything here is read from the source text with the standard library's
``ast`` module; nothing of the analysed program is imported or run.
"""

import ast
import builtins
import hashlib
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "dataplicity"


class AnalysisError(Exception):
    """The analysis itself could not reach an answer (never a verdict)."""


class Func(object):
    __slots__ = ("qual", "node", "module", "cls", "is_gen", "decos", "has_inner", "assigned",
                 "globals", "nonlocals", "name")

    def __init__(self, qual, node, module, cls):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls  # class id or None
        self.name = getattr(node, "name", "<lambda>")
        self.is_gen = False
        self.has_inner = False
        self.decos = []
        self.assigned = set()
        self.globals = set()
        self.nonlocals = set()
        self._scan()

    def _scan(self):
        body = self.node.body if isinstance(self.node.body, list) else [self.node.body]
        work = list(body)
        a = self.node.args
        for x in list(a.args) + list(a.kwonlyargs) + list(getattr(a, "posonlyargs", [])):
            self.assigned.add(x.arg)
        if a.vararg:
            self.assigned.add(a.vararg.arg)
        if a.kwarg:
            self.assigned.add(a.kwarg.arg)
        while work:
            n = work.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.has_inner = True
                self.assigned.add(n.name)
                work.extend(n.decorator_list)
                continue
            if isinstance(n, ast.Lambda):
                self.has_inner = True
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)
            if isinstance(n, ast.Nonlocal):
                self.nonlocals |= set(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.assigned.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                self.assigned.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.assigned.add((al.asname or al.name).split(".")[0])
            work.extend(ast.iter_child_nodes(n))
        self.assigned -= self.globals
        self.assigned -= self.nonlocals

    @property
    def where(self):
        return "%s:%d" % (self.module, self.node.lineno)


class Class(object):
    __slots__ = ("cid", "name", "module", "node", "bases", "attrs", "is_enum", "members", "meta")

    def __init__(self, cid, name, module, node):
        self.cid = cid
        self.name = name
        self.module = module
        self.node = node
        self.bases = []  # list of T (class or ext)
        self.attrs = {}
        self.is_enum = False
        self.members = []
        self.meta = None


class Module(object):
    __slots__ = ("name", "path", "rel", "tree", "src")

    def __init__(self, name, path, rel, tree, src):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.src = src


def load_modules(repo=None):
    repo = repo or REPO
    mods = {}
    root = os.path.join(repo, PKG)
    if not os.path.isdir(root):
        raise AnalysisError("no package directory %s" % root)
    for dirpath, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            path = os.path.join(dirpath, f)
            rel = os.path.relpath(path, repo)
            name = rel[:-3].replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[: -len(".__init__")]
            with open(path, "rb") as fh:
                src = fh.read()
            try:
                tree = ast.parse(src, filename=rel)
            except SyntaxError as error:
                raise AnalysisError("cannot parse %s: %s" % (rel, error))
            mods[name] = Module(name, path, rel, tree, src)
    return mods


def digest(mods):
    h = hashlib.sha256()
    for name in sorted(mods):
        h.update(name.encode())
        h.update(mods[name].src)
    return h.hexdigest()[:16]


# --------------------------------------------------------------- exceptions

# External exception classes that are not Python builtins: name -> bases
EXT_EXC = {
    "lomond.errors.Error": ["Exception"],
    "lomond.errors.WebSocketError": ["lomond.errors.Error"],
    "lomond.errors.WebSocketClosed": ["lomond.errors.WebSocketError"],
    "lomond.errors.WebSocketUnavailable": ["lomond.errors.WebSocketError"],
    "lomond.errors.TransportFail": ["lomond.errors.WebSocketError"],
    "socket.timeout": ["OSError"],
    "socket.error": ["OSError"],
    "select.error": ["OSError"],
    "subprocess.SubprocessError": ["Exception"],
    "subprocess.CalledProcessError": ["subprocess.SubprocessError"],
    "subprocess.TimeoutExpired": ["subprocess.SubprocessError"],
    "shutil.Error": ["OSError"],
    "shutil.SameFileError": ["shutil.Error"],
    "shutil.SpecialFileError": ["OSError"],
    "json.JSONDecodeError": ["ValueError"],
    "json.decoder.JSONDecodeError": ["ValueError"],
    "struct.error": ["Exception"],
    "termios.error": ["Exception"],
    "urllib.error.URLError": ["OSError"],
    "urllib.error.HTTPError": ["urllib.error.URLError"],
    "urllib.request.HTTPError": ["urllib.error.URLError"],
    "urllib.request.URLError": ["OSError"],
    "queue.Empty": ["Exception"],
    "queue.Full": ["Exception"],
}

EXC_ALIAS = {"IOError": "OSError", "EnvironmentError": "OSError", "socket.error": "OSError",
             "select.error": "OSError", "os.error": "OSError", "lomond.WebSocketError": "lomond.errors.WebSocketError"}


def canon_exc(name):
    if name.startswith("builtins."):
        name = name[9:]
    return EXC_ALIAS.get(name, name)


def builtin_exc(name):
    obj = getattr(builtins, name, None)
    if isinstance(obj, type) and issubclass(obj, BaseException):
        return obj
    return None
