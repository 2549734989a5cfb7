"""Frozen facts about the standard library and lomond used by the analysis.

One line per fact; everything not listed is treated conservatively: an unknown
external call is impure and may raise any Exception.
"""

CONSTS = {
    "os.sep": "/", "os.path.sep": "/", "os.pardir": "..", "os.curdir": ".", "os.path.pardir": "..",
    "os.path.curdir": ".", "os.altsep": None, "os.linesep": "\n", "os.name": "posix",
    "select.POLLIN": 1, "select.POLLPRI": 2, "select.POLLOUT": 4, "select.POLLERR": 8,
    "select.POLLHUP": 16, "select.POLLNVAL": 32,
    "pty.CHILD": 0, "sys.platform": "linux", "sys.maxsize": 2 ** 63 - 1, "typing.TYPE_CHECKING": False,
    "os.SEEK_SET": 0, "os.SEEK_CUR": 1, "os.SEEK_END": 2, "io.SEEK_SET": 0, "os.WNOHANG": 1,
    "signal.SIGHUP": 1, "signal.SIGKILL": 9, "signal.SIGTERM": 15, "signal.SIGINT": 2,
    "os.F_OK": 0, "os.R_OK": 4, "os.W_OK": 2, "os.X_OK": 1, "subprocess.PIPE": -1, "subprocess.STDOUT": -2,
    "subprocess.DEVNULL": -3, "string.ascii_lowercase": "abcdefghijklmnopqrstuvwxyz",
}

# External functions with no effect and a result that depends on nothing but
# their arguments (or on the file system, for purposes of naming values only).
PURE = set("""
len isinstance issubclass callable str bytes int float bool repr hash ord chr type tuple list set frozenset sorted
min max abs sum round range zip enumerate reversed any all getattr hasattr dict id iter format divmod pow hex oct bin
map filter vars slice bytearray memoryview
os.path.join os.path.split os.path.splitext os.path.basename os.path.dirname os.path.abspath os.path.normpath
os.path.expanduser os.path.realpath os.path.isabs os.path.relpath os.path.commonprefix os.path.commonpath
os.fsencode os.fsdecode posixpath.join posixpath.normpath
json.dumps json.loads shlex.split shlex.quote math.ceil math.floor functools.partial
struct.pack struct.unpack re.split re.match re.sub re.compile re.search re.fullmatch re.findall re.escape
collections.OrderedDict itertools.chain itertools.islice operator.itemgetter operator.attrgetter
inspect.getfullargspec inspect.getargspec inspect.signature inspect.ismethod
logging.getLogger typing.cast textwrap.dedent socket.inet_ntoa inspect.isroutine
os.fspath time.strftime stat.S_ISDIR stat.S_ISREG
""".split())

# Calls that do not raise (given arguments of the types this repository uses).
NORAISE = set("""
len isinstance issubclass callable str repr bool type tuple list set frozenset dict id iter zip enumerate reversed
sorted min max abs sum any all range hasattr getattr vars print slice map filter
os.path.join os.path.split os.path.splitext os.path.basename os.path.dirname os.path.abspath os.path.normpath
os.path.expanduser os.path.realpath os.path.isabs os.path.exists os.path.isdir os.path.isfile os.path.islink
os.path.lexists os.path.commonprefix os.access
time.time time.sleep time.monotonic time.perf_counter os.getpid os.getppid random.choice random.random os.environ.get
os.getenv
tempfile.gettempdir threading.Lock threading.RLock threading.Event threading.Thread threading.current_thread
threading.Thread.__init__ object.__init__ Exception.__init__ BaseException.__init__ threading.local
threading.Timer threading.Condition threading.Semaphore
weakref.ref logging.getLogger logging.basicConfig collections.deque collections.defaultdict collections.namedtuple
functools.partial select.poll select.epoll super object contextlib.suppress contextlib.closing
logging.config.dictConfig platform.uname platform.python_version sys.exc_info os._exit gc.collect
os.WIFEXITED os.WEXITSTATUS os.WIFSIGNALED warnings.warn io.BytesIO io.StringIO traceback.format_exc
traceback.print_exc inspect.getfullargspec inspect.getargspec inspect.signature os.read_placeholder
lomond.WebSocket lomond.persist.persist distro.name distro.version distro.codename distro.id socket.gethostname
os.path.samefile_placeholder stat.S_ISDIR stat.S_ISREG os.umask OrderedDict collections.OrderedDict
ValueError TypeError KeyError RuntimeError Exception BaseException AssertionError AttributeError IndexError
OSError IOError NotImplementedError StopIteration SystemExit KeyboardInterrupt
sys.getfilesystemencoding locale.getpreferredencoding uuid.uuid4 os.urandom
json.dumps
""".split())

# Methods without effect on anything the properties talk about.
PURE_METHODS = set("""
startswith endswith strip lstrip rstrip split rsplit splitlines partition rpartition lower upper title capitalize
encode decode format join replace count find rfind isdigit isalpha isalnum isspace zfill ljust rjust center hex
casefold expandtabs translate swapcase isidentifier removeprefix removesuffix format_map
group groups groupdict bit_length to_bytes fileno __repr__ __str__ __len__ total_seconds as_integer_ratio
isnumeric isdecimal islower isupper tobytes tostring tolist buffer_info
""".split())

NORAISE_METHODS = set("""
startswith endswith strip lstrip rstrip split rsplit splitlines partition rpartition lower upper title capitalize
encode format join replace count find rfind isdigit isalpha isalnum isspace zfill ljust rjust center hex
casefold expandtabs translate swapcase group groups groupdict bit_length fileno __repr__ __str__ __len__
append extend add discard clear copy keys values items get update setdefault sort reverse insert
is_set set release locked acquire wait join_thread notify notify_all
debug info warning error exception critical log isEnabledFor setLevel addHandler
is_alive getName setDaemon total_seconds tobytes tostring tolist buffer_info
register unregister modify poll_placeholder close_placeholder
settimeout setsockopt setblocking
kill_placeholder timer_cancel cancel islower isupper isnumeric isdecimal removeprefix removesuffix
__enter__ __exit__ getvalue iterkeys itervalues iteritems
""".split())

LOG_METHODS = set("debug info warning warn error exception critical log".split())

# Result types of external calls (used for truthiness / equality reasoning).
RET_TYPE = {
    "os.read": "bytes", ".recv": "bytes", "json.dumps": "str", "repr": "str", "str": "str", "len": "int",
    "os.path.join": "str", ".encode": "bytes", ".decode": "str", "os.getpid": "int", "bytes": "bytes",
    "int": "int", "float": "float", "time.time": "float", "os.path.basename": "str", "os.path.dirname": "str",
    "os.path.abspath": "str", "os.path.normpath": "str", "os.path.realpath": "str", ".fileno": "int",
    "tuple": "tuple", "list": "list", "sorted": "list", "dict": "dict", "set": "set", ".strip_": None,
    "os.path.splitext": "tuple", "os.path.split": "tuple", "subprocess.Popen": "Popen", "open": "file",
    "io.open": "file", "socket.socket": "socket", "select.poll": "poll", "threading.Lock": "Lock",
    "io.BytesIO": "file", "tempfile.gettempdir": "str", "subprocess.check_output": "bytes", ".startswith": "bool",
    ".endswith": "bool", "os.path.exists": "bool", "os.path.isdir": "bool", "isinstance": "bool",
    "socket.create_connection": "socket", "functools.partial": "partial", "os.path.getsize": "int",
}

# Unpacking these never raises: arity of the result is fixed.
FIXED_ARITY = {
    "os.path.split": 2, "os.path.splitext": 2, ".partition": 3, ".rpartition": 3, "pty.fork": 2, "os.waitpid": 2,
    "os.pipe": 2, "os.path.splitdrive": 2, "pty.openpty": 2, ".communicate": 2, "divmod": 2, ".buffer_info": 2,
    "sys.exc_info": 3, ".accept": 2, ".popitem": 2,
}

EXC_NAMES_IN_MODULES = ("socket.timeout", "socket.error")

LOCK_CLASSES = ("threading.Lock", "threading.RLock", "threading.Condition", "threading.Semaphore",
                "threading.BoundedSemaphore")
