"""What the agent puts on the wire: lists handed to the codec."""

from .terms import mk, call, const, is_const, cval, is_call, subterms, NONE
from . import packets
from .engine import Monitor
from .world import is_log, const_of


class Wire(Monitor):
    """Records every list given to bencode.encode as mon["sent"] += ((items...),)."""

    encoder = None

    def prepare(self, eng):
        self.encoder = eng.find_func("encode", "dataplicity.m2m.bencode")
        packets.fill(eng)
        self.client = eng.find_class("WSClient", "dataplicity.m2m.wsclient")

    def call(self, eng, st, name, base, args, kwargs, node):
        if name == self.encoder:
            items = eng.known_items(st, args[0]) if args else None
            if items is None and args and args[0].op == "call" and args[0].args[0] in ("list", "tuple"):
                items = eng.iter_items(st, args[0])
            msg = tuple(items) if items is not None else (args[0] if args else NONE,)
            sent = st.mon.get("sent", ()) + (msg,)
            if len(sent) > 6:
                sent = sent[:6]
            st = self.sending(eng, st, msg, node)
            if st is None:
                return []
            t = call("encoded", None, msg)
            return [("ret", st.setmon(sent=sent), t)]
        return None

    def sending(self, eng, st, msg, node):
        return st


def unwrap(t):
    """A value that was turned to UTF-8 on the way out."""
    while is_call(t, ".encode") and t.args[1] is not None and utf8(t):
        t = t.args[1]
    return t


def utf8(t):
    """An encoding to UTF-8 that loses nothing."""
    vals = list(t.args[2]) + [v for n, v in t.args[3] if n in ("encoding", "errors")]
    if not all(is_const(v) and isinstance(cval(v), str) for v in vals):
        return False
    words = [cval(v).lower().replace("_", "-") for v in vals]
    return all(w in ("utf-8", "utf8", "strict", "surrogateescape", "surrogatepass") for w in words)
