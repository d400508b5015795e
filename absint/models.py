"""Abstract models of the standard-library and third-party modules the analysed code uses."""
import ast
import math as _math
import re as _re
import struct as _struct

from .domain import *
from .interp import (ANat, BArr, Blocked, BMeth, CMeth, Cls, Coro, Deque, Func, Gen, It, MView, Mod, NDesc, NMeth, Nat, Obj, Prop, PyExc,
                     SMeth, SStr, Super, SymSeq, Top, TopMod, Unsupported, BYTESY)
from .ctypes_model import CTypes
from .crypto_model import Crypto


def nat(f, name="?"):
    return Nat(name, lambda I, a, k: f(*a, **k))


class Models:
    def __init__(self, I):
        self.I = I
        self.ctx = I.ctx
        self.ct = CTypes(I)
        self.crypto = Crypto(I, self.ct)
        self.T = self.crypto.T
        self.cache = {}
        self.clock = 0
        self.running = []           # loops running in this thread

    def module(self, name):
        if name in self.cache:
            return self.cache[name]
        top = name.split(".")[0]
        if top in self.I.env.get("missing", ()):
            self.I.throw("ModuleNotFoundError", "No module named '%s'" % name)
        if top == "nacl":
            self.cache.update(self.crypto.nacl_modules())
        elif top == "tweetnacl":
            self.cache.update(self.crypto.tweetnacl_modules())
        else:
            f = getattr(self, "m_" + name.replace(".", "__"), None)
            if f is not None:
                m = Mod(name)
                self.cache[name] = m
                f(m)
                return m
        m = self.cache.get(name)
        if m is None:
            m = self.cache[name] = TopMod(name)
        return m

    def attr(self, modname, attr):
        sub = modname + "." + attr
        if getattr(self, "m_" + sub.replace(".", "__"), None) is not None or sub in self.cache:
            return self.I.import_(sub)
        return Top(sub)

    def cls(self, name, bases=None, mod="?", **ns):
        B = self.I.B
        c = Cls(name, tuple(bases) if bases else (B.OBJECT,), meta=B.TYPE, mod=mod)
        c.native = True
        for k, v in ns.items():
            c.ns[k] = v
        return c

    def meth(self, f, name="?"):
        return NMeth(name, lambda I, a, k: f(*a, **k))

    def ameth(self, f, name="?"):
        return ANat(name, lambda I, a, k: f(*a, **k))

    # ------------------------------------------------------------ struct
    def m_struct(self, m):
        I = self.I
        err = self.cls("error", (I.B.exc["Exception"],), "struct")
        m.ns["error"] = err
        self.struct_error = err
        m.ns["pack"] = nat(self.s_pack, "pack")
        m.ns["unpack"] = nat(self.s_unpack, "unpack")
        m.ns["unpack_from"] = nat(self.s_unpack_from, "unpack_from")
        m.ns["pack_into"] = nat(self.s_pack_into, "pack_into")
        m.ns["calcsize"] = nat(lambda f: self.s_layout(f)[1], "calcsize")
        m.ns["iter_unpack"] = nat(self.s_iter_unpack, "iter_unpack")
        sc = self.cls("Struct", None, "struct")
        sc.ns["__init__"] = self.meth(lambda o, f: o.d.update(format=f, size=self.s_layout(f)[1]))
        for n, f in (("pack", self.s_pack), ("unpack", self.s_unpack), ("unpack_from", self.s_unpack_from), ("pack_into", self.s_pack_into),
                     ("iter_unpack", self.s_iter_unpack)):
            sc.ns[n] = NMeth(n, (lambda f: lambda I, a, k: f(a[0].d["format"], *a[1:], **k))(f))
        m.ns["Struct"] = sc

    def s_layout(self, fmt):
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        if not isinstance(fmt, str):
            raise Unsupported("struct format")
        order = "@"
        f = fmt
        if f and f[0] in "@=<>!":
            order, f = f[0], f[1:]
        size = self.I.host(_struct.calcsize, fmt) if self.fmt_ok(fmt) else None
        if size is None:
            self.I.throw(self.struct_error, "bad char in struct format")
        items = []
        off = 0
        for cnt, ch in _re.findall(r"(\d*)([a-zA-Z?])", f):
            n = int(cnt) if cnt else 1
            if ch in "sp":
                items.append((off, ch, n, None))
                off += n
                continue
            w = _struct.calcsize(("=" if order != "@" else "@") + ch)
            for _ in range(n):
                if order == "@" and w:
                    off = -(-off // w) * w
                if ch != "x":
                    items.append((off, ch, w, order in (">", "!")))
                off += w
        return items, size

    def fmt_ok(self, fmt):
        try:
            _struct.calcsize(fmt)
            return True
        except _struct.error:
            return False

    def s_pack(self, fmt, *vals):
        I, ctx = self.I, self.ctx
        items, size = self.s_layout(fmt)
        if len(items) != len(vals):
            I.throw(self.struct_error, "pack expected %d items for packing (got %d)" % (len(items), len(vals)))
        out = []
        off = 0
        for (o, ch, w, be), v in zip(items, vals):
            if o > off:
                out.append(bytes(o - off))
            if ch in "sp":
                b = I.B.bufferlike(v)
                if b is None:
                    if isinstance(v, Top):
                        raise Unsupported("pack of unknown")
                    I.throw(self.struct_error, "argument for 's' must be a bytes object")
                n = ctx.blen(b)
                if ctx.le(n, w):
                    b = ctx.cat([b, ctx.zeros(lsub(lin(w), n))])
                else:
                    I.event("trunc", "struct %ds" % w, b, w)
                    b = ctx.bslice(b, Lin(0), Lin(w))
            elif ch in "bBhHiIlLqQnNP":
                v = I.B.unwrap(v)
                if isinstance(v, Top):
                    raise Unsupported("pack of unknown")
                if not isinstance(v, (int, Lin)):
                    if isinstance(v, Obj) and v.cls.find("__index__") is not None:
                        v = I.callm(v, "__index__")
                    else:
                        I.throw(self.struct_error, "required argument is not an integer")
                sg = ch in "bhilqn"
                lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if sg else (0, (1 << (8 * w)) - 1)
                if isinstance(v, int):
                    if not lo <= v <= hi:
                        I.throw(self.struct_error, "argument out of range")
                elif not ctx.le(lin(v), hi) or not ctx.le(lin(lo), lin(v)):
                    I.throw(self.struct_error, "argument out of range")
                b = ctx.be_bytes(lin(v), w) if be else ctx.le_bytes(lin(v), w)
            elif ch == "c":
                b = I.B.bufferlike(v)
                if b is None or not ctx.eq0(lsub(ctx.blen(b), 1)):
                    I.throw(self.struct_error, "char format requires a bytes object of length 1")
            elif ch == "?":
                b = bytes([1 if I.truth(v) else 0])
            else:
                raise Unsupported("struct format " + ch)
            out.append(b)
            off = o + w
        if off < size:
            out.append(bytes(size - off))
        return ctx.cat(out)

    def s_decode(self, items, b):
        ctx = self.ctx
        out = []
        for (o, ch, w, be) in items:
            x = ctx.bslice(b, Lin(o), Lin(o + w))
            if ch in "spc":
                out.append(x)
            elif ch == "?":
                out.append(not ctx.eq0(lin(ctx.dec(x))))
            elif ch in "bBhHiIlLqQnNP":
                sg = ch in "bhilqn"
                out.append(ctx.dec_be(x, sg) if be else ctx.dec(x, sg))
            else:
                raise Unsupported("struct format " + ch)
        return tuple(out)

    def buf(self, v):
        b = self.I.B.bufferlike(v)
        if b is None:
            if isinstance(v, Top):
                raise Unsupported("unknown buffer")
            self.I.throw("TypeError", "a bytes-like object is required, not '%s'" % getattr(self.I.type(v), "name", "?"))
        return b

    def s_unpack(self, fmt, buffer):
        ctx = self.ctx
        items, size = self.s_layout(fmt)
        b = self.buf(buffer)
        if not ctx.eq0(lsub(ctx.blen(b), size)):
            self.I.throw(self.struct_error, "unpack requires a buffer of %d bytes" % size)
        return self.s_decode(items, b)

    def s_unpack_from(self, fmt, buffer, offset=0):
        ctx = self.ctx
        items, size = self.s_layout(fmt)
        b = self.buf(buffer)
        off = lin(offset)
        if ctx.le0(ladd(off, 1)):
            off = ladd(off, ctx.blen(b))
            if ctx.le0(ladd(off, 1)):
                self.I.throw(self.struct_error, "offset out of range")
        if not ctx.le(ladd(off, size), ctx.blen(b)):
            self.I.throw(self.struct_error, "unpack_from requires a buffer of at least %d bytes" % size)
        return self.s_decode(items, ctx.bslice(b, off, ladd(off, size)))

    def s_iter_unpack(self, fmt, buffer):
        items, size = self.s_layout(fmt)
        b = self.buf(buffer)
        n = self.ctx.norm(self.ctx.blen(b))
        if n.t:
            raise Unsupported("iter_unpack")
        if n.c % size:
            self.I.throw(self.struct_error, "iterative unpacking requires a buffer of a multiple of %d bytes" % size)
        return It(iter([self.s_decode(items, self.ctx.bslice(b, Lin(i), Lin(i + size))) for i in range(0, n.c, size)]))

    def s_pack_into(self, fmt, buffer, offset, *vals):
        ctx = self.ctx
        v = self.s_pack(fmt, *vals)
        if isinstance(buffer, BArr):
            if not ctx.le(ladd(lin(offset), ctx.blen(v)), ctx.blen(buffer.v)):
                self.I.throw(self.struct_error, "pack_into requires a larger buffer")
            self.ct.put(buffer, lin(offset), v)
        elif isinstance(buffer, Obj) and buffer.mem is not None:
            if not ctx.le(ladd(lin(offset), ctx.blen(v)), lin(buffer.cls.ext.get("size", 0))):
                self.I.throw(self.struct_error, "pack_into requires a larger buffer")
            self.ct.put(buffer.mem, ladd(lin(buffer.off), offset), v)
        else:
            raise Unsupported("pack_into")

    # ------------------------------------------------------------ ctypes
    def m_ctypes(self, m):
        m.ns.update(self.ct.ns)
        ld = Obj(self.cls("LibraryLoader", None, "ctypes"))
        ld.cls.ns["LoadLibrary"] = self.meth(lambda o, name: self.load_library(name), "LoadLibrary")
        ld.cls.ns["__getattr__"] = self.meth(lambda o, name: self.load_library(name))
        m.ns["cdll"] = ld
        m.ns["CDLL"] = nat(lambda name, *a, **k: self.load_library(name), "CDLL")
        m.ns["PyDLL"] = m.ns["CDLL"]

    def load_library(self, name):
        if name is not None and not (isinstance(name, str) and "sodium" in name):
            return Top("library %s" % (name,))
        if name is not None and self.I.env.get("sodium") == "none":
            self.I.throw("OSError", "cannot open shared object file")
        return self.crypto.library(name)

    def m_ctypes__util(self, m):
        m.ns["find_library"] = nat(lambda n: None if self.I.env.get("sodium") == "none" else "lib%s.so.23" % n, "find_library")

    # ------------------------------------------------------------ asyncio
    def loop_obj(self):
        lo = getattr(self, "_loop", None)
        if lo is None:
            lo = self._loop = self.new_loop("current")
        return lo

    def new_loop(self, tag):
        I = self.I
        c = getattr(self, "_loopcls", None)
        if c is None:
            c = self._loopcls = self.cls("AbstractEventLoop", None, "asyncio")
            c.ns["run_until_complete"] = self.meth(self.run_until, "run_until_complete")
            c.ns["create_task"] = self.meth(lambda o, co, **k: self.task(co), "create_task")
            c.ns["create_future"] = self.meth(lambda o: self.future(), "create_future")
            c.ns["close"] = self.meth(lambda o: None)
            c.ns["stop"] = self.meth(lambda o: None)
            c.ns["is_running"] = self.meth(lambda o: o in self.running)
            c.ns["is_closed"] = self.meth(lambda o: False)
            c.ns["time"] = self.meth(lambda o: self.tick())
            c.ns["call_soon"] = self.meth(lambda o, f, *a: I.call(f, list(a), {}))
            c.ns["run_in_executor"] = self.meth(lambda o, ex, f, *a: Coro("run_in_executor", lambda: self.executor(f, a)))
            c.ns["sock_recv"] = self.ameth(lambda o, s, n: (I.event("suspend", "sock_recv"), I.callm(s, "recv", n))[1])
            c.ns["sock_sendall"] = self.ameth(lambda o, s, d: (I.event("suspend", "sock_sendall"), I.callm(s, "sendall", d))[1])
        o = Obj(c)
        o.ext = {"loop": tag}
        return o

    def executor(self, f, a):
        self.I.event("suspend", "run_in_executor")
        return self.I.call(f, list(a), {})

    def run_until(self, loop, co):
        I = self.I
        I.event("rununtil", loop)
        if self.running:
            I.throw("RuntimeError", "This event loop is already running" if self.running[-1] is loop else "Cannot run the event loop while another loop is running")
        return self.in_loop(loop, co)

    def in_loop(self, loop, co):
        """run a coroutine on loop to completion"""
        old, self.running = self.running, self.running + [loop]
        try:
            return self.I.await_(co)
        finally:
            self.running = old

    def get_loop(self):
        if self.running:
            return self.running[-1]
        if self.I.env.get("noloop") and getattr(self, "_setloop", None) is None:
            self.I.throw("RuntimeError", "There is no current event loop in thread 'Thread-1'.")
        return getattr(self, "_setloop", None) or self.loop_obj()

    def set_loop(self, lo):
        self._setloop = lo
        self.I.event("setloop", lo)

    def get_running(self):
        if self.running:
            return self.running[-1]
        self.I.throw("RuntimeError", "no running event loop")

    def isco(self, v):
        if isinstance(v, BMeth):
            v = v.f
        if isinstance(v, Func):
            from .interp import fn_info
            return (isinstance(v.node, ast.AsyncFunctionDef) and not fn_info(v.node).isgen) or bool(v.d.get("_is_coroutine"))
        return isinstance(v, ANat)

    def future(self, state=None):
        c = getattr(self, "_futcls", None)
        I = self.I
        if c is None:
            c = self._futcls = self.cls("Future", None, "asyncio")

            def result(o):
                r = (o.ext or {}).get("result")
                if r is None:
                    I.throw("RuntimeError", "Result is not set.")
                if r[0] == "exc":
                    raise PyExc(r[1])
                return r[1]
            c.ns["result"] = self.meth(result)
            c.ns["set_result"] = self.meth(lambda o, v: o.ext.update(result=("ok", v)))
            c.ns["set_exception"] = self.meth(lambda o, v: o.ext.update(result=("exc", I.call(v, [], {}) if isinstance(v, Cls) else v)))
            c.ns["done"] = self.meth(lambda o: "result" in o.ext)
            c.ns["exception"] = self.meth(lambda o: o.ext["result"][1] if o.ext["result"][0] == "exc" else None)
            c.ns["cancel"] = self.meth(lambda o, *a: False)
            c.ns["cancelled"] = self.meth(lambda o: False)
            c.ns["add_done_callback"] = self.meth(lambda o, f, **k: I.call(f, [o], {}))
        o = Obj(c)
        o.ext = {} if state is None else {"result": state}
        return o

    def task(self, co):
        """a task: executed at creation (one of its possible schedules)"""
        I = self.I
        if isinstance(co, Obj) and co.ext is not None and "result" in co.ext:
            return co
        I.event("task", getattr(co, "name", "?"))
        try:
            return self.future(("ok", I.await_(co)))
        except PyExc as e:
            return self.future(("exc", e.obj))

    def suspend(self, what, v=None):
        self.I.event("suspend", what)
        return v

    def gather(self, *cos, return_exceptions=False, **k):
        out = []
        self.I.event("suspend", "gather")
        for c in cos:
            try:
                out.append(self.I.await_(c))
            except PyExc as e:
                if not return_exceptions:
                    raise
                out.append(e.obj)
        return out

    def wait_for(self, co, timeout=None, **k):
        self.I.event("suspend", "wait_for")
        if timeout is not None and self.I.env.get("timeouts", True):
            if not self.ctx.opaque(("timeout", self.ctx.fresh("timeout")), "finishes in time"):
                self.I.event("timeout")
                self.I.throw("TimeoutError")
        return self.I.await_(co)

    def m_asyncio(self, m):
        I = self.I
        ns = m.ns
        ns["iscoroutinefunction"] = nat(self.isco, "iscoroutinefunction")
        ns["iscoroutine"] = nat(lambda v: isinstance(v, Coro), "iscoroutine")
        ns["get_event_loop"] = nat(self.get_loop, "get_event_loop")
        ns["new_event_loop"] = nat(lambda: self.new_loop("new"), "new_event_loop")
        ns["set_event_loop"] = nat(self.set_loop, "set_event_loop")
        ns["get_running_loop"] = nat(self.get_running, "get_running_loop")
        ns["run"] = nat(lambda co, **k: self.run_until(self.new_loop("run"), co), "run")
        ns["sleep"] = Nat("sleep", lambda I, a, k: Coro("sleep", lambda: self.suspend("asyncio.sleep")))
        ns["gather"] = Nat("gather", lambda I, a, k: Coro("gather", lambda: self.gather(*a, **k)))
        ns["wait_for"] = Nat("wait_for", lambda I, a, k: Coro("wait_for", lambda: self.wait_for(*a, **k)))
        ns["shield"] = Nat("shield", lambda I, a, k: a[0])
        ns["create_task"] = nat(lambda co, **k: self.task(co), "create_task")
        ns["ensure_future"] = nat(lambda co, **k: self.task(co), "ensure_future")
        ns["to_thread"] = Nat("to_thread", lambda I, a, k: Coro("to_thread", lambda: self.executor(a[0], a[1:])))
        B = I.B
        ns["CancelledError"] = self.cls("CancelledError", (B.exc["BaseException"],), "asyncio")
        ns["TimeoutError"] = B.exc["TimeoutError"]
        ns["InvalidStateError"] = self.cls("InvalidStateError", (B.exc["Exception"],), "asyncio")
        ns["LimitOverrunError"] = self.cls("LimitOverrunError", (B.exc["Exception"],), "asyncio")
        inc = self.cls("IncompleteReadError", (B.exc["EOFError"],), "asyncio")

        def inc_init(I, a, k):
            a[0].d.update(args=tuple(a[1:]), partial=a[1] if len(a) > 1 else b"", expected=a[2] if len(a) > 2 else None)
        inc.ns["__init__"] = NMeth("__init__", inc_init)
        ns["IncompleteReadError"] = inc
        ns["Future"] = self.cls("FutureFactory", None, "asyncio")
        ns["Future"].ctor = lambda I, c, a, k: self.future()
        lock = self.cls("Lock", None, "asyncio")
        lock.ns["__init__"] = self.meth(lambda o, *a, **k: o.d.update(_locked=False))

        def acq(o):
            I.event("suspend", "Lock.acquire")
            if o.d["_locked"]:
                raise Blocked("lock held")
            o.d["_locked"] = True
            I.event("lock")
            return True

        def rel(o):
            if not o.d["_locked"]:
                I.throw("RuntimeError", "Lock is not acquired.")
            o.d["_locked"] = False
            I.event("unlock")
        lock.ns["acquire"] = self.ameth(acq, "acquire")
        lock.ns["release"] = self.meth(rel, "release")
        lock.ns["locked"] = self.meth(lambda o: o.d["_locked"])
        lock.ns["__aenter__"] = self.ameth(lambda o: acq(o), "__aenter__")
        lock.ns["__aexit__"] = self.ameth(lambda o, *a: rel(o), "__aexit__")
        ns["Lock"] = lock
        ns["Semaphore"] = ns["BoundedSemaphore"] = ns["Condition"] = lock
        for n in ("StreamReader", "StreamWriter", "StreamReaderProtocol"):
            ns[n] = I.import_("asyncio.streams").ns[n]
        ns["AbstractEventLoop"] = self.new_loop("x").cls
        ns["ALL_COMPLETED"], ns["FIRST_COMPLETED"], ns["FIRST_EXCEPTION"] = "ALL_COMPLETED", "FIRST_COMPLETED", "FIRST_EXCEPTION"

    def m_asyncio__events(self, m):
        m.ns.update({k: self.I.import_("asyncio").ns[k] for k in ("get_event_loop", "new_event_loop", "set_event_loop")})
        m.ns["AbstractEventLoop"] = self.new_loop("x").cls

    def m_asyncio__coroutines(self, m):
        m.ns["iscoroutine"] = nat(lambda v: isinstance(v, Coro), "iscoroutine")
        m.ns["iscoroutinefunction"] = nat(self.isco, "iscoroutinefunction")

    def m_asyncio__exceptions(self, m):
        a = self.I.import_("asyncio")
        for n in ("CancelledError", "TimeoutError", "InvalidStateError", "IncompleteReadError", "LimitOverrunError"):
            m.ns[n] = a.ns[n]

    def m_asyncio__streams(self, m):
        I = self.I
        rd = self.cls("StreamReader", None, "asyncio.streams")
        rd.native = False
        rd.ns["__init__"] = self.meth(lambda o, *a, **k: o.d.update(_limit=65536))
        rd.ns["readexactly"] = self.ameth(lambda o, n: self.stream(o).readexactly(n), "readexactly")
        rd.ns["read"] = self.ameth(lambda o, n=-1: self.stream(o).read(n), "read")
        rd.ns["readline"] = self.ameth(lambda o: self.stream(o).weird("readline"), "readline")
        rd.ns["readuntil"] = self.ameth(lambda o, *a: self.stream(o).weird("readuntil"), "readuntil")
        rd.ns["at_eof"] = self.meth(lambda o: Top("at_eof"))
        rd.ns["feed_data"] = self.meth(lambda o, d: I.event("feed", d))
        rd.ns["feed_eof"] = self.meth(lambda o: None)
        rd.ns["set_transport"] = self.meth(lambda o, t: None)
        wr = self.cls("StreamWriter", None, "asyncio.streams")
        wr.native = False
        wr.ns["__init__"] = self.meth(lambda o, *a, **k: None)
        wr.ns["write"] = self.meth(lambda o, d: self.stream(o).write(d), "write")
        wr.ns["writelines"] = self.meth(lambda o, ds: self.stream(o).write(I.callm(b"", "join", ds)), "writelines")
        wr.ns["drain"] = self.ameth(lambda o: self.stream(o).drain(), "drain")
        wr.ns["close"] = self.meth(lambda o: I.event("close"))
        wr.ns["is_closing"] = self.meth(lambda o: False)
        wr.ns["wait_closed"] = self.ameth(lambda o: self.suspend("wait_closed"), "wait_closed")
        wr.ns["get_extra_info"] = self.meth(lambda o, *a: Top("extra"))
        m.ns.update(StreamReader=rd, StreamWriter=wr, _DEFAULT_LIMIT=65536)
        sp = self.cls("StreamReaderProtocol", None, "asyncio.streams")
        sp.native = False
        sp.ns["__init__"] = self.meth(lambda o, *a, **k: None)
        m.ns["StreamReaderProtocol"] = sp

    def stream(self, o):
        s = (o.ext or {}).get("stream") or self.I.env.get("stream")
        if s is None:
            raise Unsupported("stream without environment")
        return s

    # ------------------------------------------------------------ abc / enum / typing ...
    def m_abc(self, m):
        I = self.I
        m.ns["ABCMeta"] = I.B.ABCMETA
        abc = Cls("ABC", (I.B.OBJECT,), meta=I.B.ABCMETA, mod="abc")
        m.ns["ABC"] = abc

        def absm(I, a, k):
            if isinstance(a[0], Func):
                a[0].abstract = True
            elif isinstance(a[0], (SMeth, CMeth)) and isinstance(a[0].f, Func):
                a[0].f.abstract = True
            elif isinstance(a[0], Prop) and isinstance(a[0].g, Func):
                a[0].g.abstract = True
            return a[0]
        m.ns["abstractmethod"] = Nat("abstractmethod", absm)
        m.ns["abstractproperty"] = Nat("abstractproperty", lambda I, a, k: (absm(I, a, k), Prop(a[0]))[1])

    def m_enum(self, m):
        I = self.I
        B = I.B
        meta = Cls("EnumMeta", (B.TYPE,), meta=B.TYPE, mod="enum")
        auto = self.cls("auto", None, "enum")
        m.ns["auto"] = auto

        def on_sub(I, cls):
            kinds = [b for b in cls.mro[1:] if b in (m.ns["IntEnum"], m.ns["IntFlag"])]
            if kinds or any(b is B.types["int"] for b in cls.mro):
                cls.ext["int_value"] = True
            if m.ns["StrEnum"] in cls.mro[1:] or any(b is B.types["str"] for b in cls.mro):
                cls.ext["str_value"] = True
            if m.ns["IntEnum"] in cls.mro[1:]:
                cls.ext["enum_int_str"] = True
            cls.ext["enum"] = True
            cls.ext["members"] = {}
            last = 0
            for n, v in list(cls.ns.items()):
                if n.startswith("_") or isinstance(v, (Func, Nat, Prop, NDesc, SMeth, CMeth, Cls)):
                    continue
                if isinstance(v, Obj) and v.cls is auto:
                    v = (last + 1) if isinstance(last, int) else 1
                    if "str_value" in cls.ext:
                        v = n.lower()
                    if m.ns["Flag"] in cls.mro or m.ns["IntFlag"] in cls.mro:
                        v = 1 << len(cls.ext["members"])
                last = v
                al = next((x for x in cls.ext["members"].values() if type(x.d["_value_"]) is type(v) and x.d["_value_"] == v), None)
                if al is None:
                    al = Obj(cls, {"_name_": n, "_value_": v})
                    ini = cls.find("__init__")
                    if isinstance(ini, Func):
                        I.call(ini, [al] + (list(v) if isinstance(v, tuple) else [v]), {})
                cls.ext["members"][n] = al
                cls.ns[n] = al

        def call(I, a, k):
            cls, v = a[0], a[1] if len(a) > 1 else None
            if len(a) > 2:
                raise Unsupported("functional enum")
            if isinstance(v, Obj) and v.cls is cls:
                return v
            for x in cls.ext["members"].values():
                if I.truth(I.eq(x.d["_value_"], v)):
                    return x
            mi = cls.find("_missing_")
            if isinstance(mi, (CMeth, Func)):
                r = I.call(mi.f if isinstance(mi, CMeth) else mi, [cls, v], {})
                if isinstance(r, Obj):
                    return r
            I.throw("ValueError", "%r is not a valid %s" % (v if isinstance(v, (int, str)) else "value", cls.name))
        meta.ns["__call__"] = NMeth("EnumMeta.__call__", call)
        meta.ns["__members__"] = NDesc(lambda I, c: dict(c.ext["members"]))
        meta.ns["__contains__"] = NMeth("contains", lambda I, a, k: any(x is a[1] or I.truth(I.eq(x.d["_value_"], a[1])) for x in a[0].ext["members"].values()))
        E = Cls("Enum", (B.OBJECT,), meta=meta, mod="enum")
        E.ext["on_subclass"] = on_sub
        E.ns["value"] = NDesc(lambda I, o: o.d["_value_"])
        E.ns["name"] = NDesc(lambda I, o: o.d["_name_"])
        m.ns["Enum"] = E
        for n in ("IntEnum", "IntFlag", "Flag", "StrEnum"):
            c = Cls(n, (E,), meta=meta, mod="enum")
            c.ext["on_subclass"] = on_sub
            m.ns[n] = c
        m.ns["EnumMeta"] = m.ns["EnumType"] = meta
        m.ns["unique"] = nat(lambda c: c, "unique")
        for n, op in (("__or__", "|"), ("__and__", "&"), ("__xor__", "^")):
            for c in (m.ns["Flag"], m.ns["IntFlag"]):
                c.ns[n] = NMeth(n, (lambda op: lambda I, a, k: I.binop(op, a[0].d["_value_"] if isinstance(a[0], Obj) else a[0],
                                                                        a[1].d["_value_"] if isinstance(a[1], Obj) else a[1]))(op))

    def m_typing(self, m):
        I = self.I
        B = I.B
        inert = self.cls("_TypingForm", None, "typing")
        inert.ns["__getitem__"] = self.meth(lambda o, *a: o)
        inert.ns["__or__"] = self.meth(lambda o, *a: o)
        inert.ns["__ror__"] = self.meth(lambda o, *a: o)
        inert.ns["__call__"] = self.meth(lambda o, *a, **k: o)
        for n in ("Any", "Optional", "Union", "List", "Dict", "Tuple", "Set", "FrozenSet", "Callable", "Awaitable", "Coroutine", "Iterable",
                  "Iterator", "Sequence", "Mapping", "MutableMapping", "Type", "ClassVar", "Final", "Literal", "AsyncIterator",
                  "AsyncGenerator", "Generator", "Deque", "DefaultDict", "Annotated", "ByteString", "Text", "NoReturn", "Self", "Never"):
            m.ns[n] = Obj(inert)
        m.ns["TypeVar"] = nat(lambda *a, **k: Obj(inert))
        m.ns["ParamSpec"] = m.ns["NewType"] = m.ns["TypeVar"]
        m.ns["cast"] = nat(lambda t, v: v)
        m.ns["overload"] = nat(lambda f: f)
        m.ns["final"] = nat(lambda f: f)
        m.ns["TYPE_CHECKING"] = False
        g = self.cls("Generic", None, "typing")
        m.ns["Generic"] = m.ns["Protocol"] = g
        nt = self.cls("NamedTuple", None, "typing")

        def on_sub(I, cls):
            if cls.bases[0] is nt:
                f = list(cls.ns.get("__annotations__", {}))
                self.make_nt(cls, f, {k: cls.ns[k] for k in f if k in cls.ns})
        nt.ext["on_subclass"] = on_sub
        m.ns["NamedTuple"] = nt

    m_typing_extensions = m_typing

    # ------------------------------------------------------------ collections
    def make_nt(self, cls, fields, defaults=None):
        I = self.I
        defaults = defaults or {}
        cls.ext["nt"] = tuple(fields)

        def new(I, a, k):
            c = a[0]
            vals = list(a[1:])
            if len(vals) > len(fields):
                I.throw("TypeError", "too many arguments")
            k = dict(k)
            for f in fields[len(vals):]:
                if f in k:
                    vals.append(k.pop(f))
                elif f in defaults:
                    vals.append(defaults[f])
                else:
                    I.throw("TypeError", "missing argument '%s'" % f)
            if k:
                I.throw("TypeError", "unexpected keyword argument")
            o = Obj(c)
            o.seq = tuple(vals)
            return o
        cls.ns["__new__"] = Nat("__new__", new)
        cls.ns["__init__"] = NMeth("__init__", lambda I, a, k: None)
        for i, f in enumerate(fields):
            cls.ns[f] = NDesc((lambda i: lambda I, o: o.seq[i])(i))
        cls.ns["_fields"] = tuple(fields)
        cls.ns["_replace"] = self.meth(lambda o, **k: I.call(o.cls, [k.get(f, v) for f, v in zip(fields, o.seq)], {}))
        cls.ns["_asdict"] = self.meth(lambda o: dict(zip(fields, o.seq)))
        cls.ns["_make"] = CMeth(Nat("_make", lambda I, a, k: I.call(a[0], list(I.iterate(a[1])), {})))

        def sub(I, c):
            c.ext["nt"] = tuple(fields)
        cls.ext["on_subclass"] = sub

    def namedtuple(self, name, fields, rename=False, defaults=None, module=None):
        if isinstance(fields, str):
            fields = fields.replace(",", " ").split()
        fields = list(self.I.iterate(fields))
        c = Cls(name, (self.I.B.OBJECT,), meta=self.I.B.TYPE, mod="collections")
        d = {}
        if defaults is not None:
            ds = list(self.I.iterate(defaults))
            d = dict(zip(fields[len(fields) - len(ds):], ds))
        self.make_nt(c, fields, d)
        return c

    def m_collections(self, m):
        I = self.I
        m.ns["namedtuple"] = nat(self.namedtuple, "namedtuple")
        dq = I.B.types["deque"]

        def dctor(I, cls, a, k):
            it = a[0] if a else k.get("iterable", ())
            ml = a[1] if len(a) > 1 else k.get("maxlen")
            v = list(I.iterate(it))
            if ml is not None:
                if not isinstance(ml, int):
                    raise Unsupported("deque maxlen")
                v = v[-ml:] if ml else []
            return Deque(v, ml)
        dq.ctor = dctor
        m.ns["deque"] = dq
        m.ns["OrderedDict"] = I.B.types["dict"]

        def counter(it=()):
            if I.B.bag("counter", it) is not None:
                return I.B.bag("counter", it)
            d = {}
            for x in I.iterate(it):
                x = I.B.dkey(d, I.hkey(x))
                d[x] = d.get(x, 0) + 1
            return d
        m.ns["Counter"] = nat(counter, "Counter")
        dd = self.cls("defaultdict", None, "collections")

        def ddnew(I, cls, a, k):
            o = Obj(cls)
            o.seq = dict(a[1]) if len(a) > 1 else {}
            o.d["default_factory"] = a[0] if a else None
            return o
        dd.ctor = ddnew

        def missing(o, k):
            v = I.call(o.d["default_factory"], [], {})
            o.seq[k] = v
            return v
        dd.ns["__missing__"] = self.meth(missing)
        m.ns["defaultdict"] = dd
        m.ns["abc"] = I.import_("collections.abc")

    def m_collections__abc(self, m):
        I = self.I
        B = I.B

        def mk(n, f):
            c = self.cls(n, None, "collections.abc")
            c.native = False
            c.ext["isinst"] = f
            m.ns[n] = c
        has = lambda v, *ms: isinstance(v, Obj) and all(v.cls.find(x) is not None for x in ms)
        mk("Sequence", lambda v: isinstance(v, (list, tuple, bytes, SBytes, str, BArr, range, MView)) or isinstance(v, Obj) and isinstance(v.seq, tuple))
        mk("MutableSequence", lambda v: isinstance(v, (list, BArr, Deque)))
        mk("Iterable", lambda v: isinstance(v, (list, tuple, dict, set, bytes, SBytes, str, BArr, It, Gen, Deque, range)) or has(v, "__iter__"))
        mk("Iterator", lambda v: isinstance(v, (It, Gen)) or has(v, "__next__"))
        mk("Mapping", lambda v: isinstance(v, dict) or isinstance(v, Obj) and isinstance(v.seq, dict))
        mk("MutableMapping", lambda v: isinstance(v, dict))
        mk("Callable", lambda v: isinstance(v, (Func, Nat, BMeth, Cls)) or has(v, "__call__"))
        mk("Sized", lambda v: isinstance(v, (list, tuple, dict, set, bytes, SBytes, str, BArr, Deque)) or has(v, "__len__"))
        mk("Hashable", lambda v: not isinstance(v, (list, dict, set, BArr)))
        mk("ByteString", lambda v: isinstance(v, (bytes, SBytes, BArr)))
        mk("Buffer", lambda v: B.bufferlike(v) is not None)
        mk("Awaitable", lambda v: isinstance(v, Coro))
        mk("Coroutine", lambda v: isinstance(v, Coro))

    # ------------------------------------------------------------ re
    def m_re(self, m):
        I = self.I
        pc = self.cls("Pattern", None, "re")
        mc = self.cls("Match", None, "re")
        self.retypes = (pc, mc)

        def compile_(p, flags=0):
            if isinstance(p, Obj) and p.cls is pc:
                return p
            if not isinstance(p, (str, bytes)):
                raise Unsupported("regular expression")
            fl = int(flags.d["_value_"]) if isinstance(flags, Obj) else int(flags)
            try:
                _re.compile(p, fl)
            except _re.error as e:
                I.throw(m.ns["error"], str(e))
            o = Obj(pc)
            o.d.update(pattern=p, flags=fl)
            return o

        def run(mode):
            def f(o, s, *a):
                p, fl = o.d["pattern"], o.d["flags"]
                isb = isinstance(p, bytes)
                if isinstance(s, Top):
                    return Top("match")
                if isb:
                    b = I.B.bufferlike(s)
                    if b is None:
                        I.throw("TypeError", "cannot use a bytes pattern on a string-like object" if isinstance(s, (str, SStr)) else "expected string or bytes-like object")
                    b = self.ctx.renorm(b)
                else:
                    if not isinstance(s, (str, SStr)):
                        I.throw("TypeError", "cannot use a string pattern on a bytes-like object" if I.B.bufferlike(s) is not None else "expected string or bytes-like object")
                    b = s
                if isinstance(b, (bytes, str)):
                    r = getattr(_re.compile(p, fl), mode)(b, *a)
                    if r is None:
                        return None
                    o2 = Obj(mc)
                    o2.ext = {"m": r}
                    return o2
                if isinstance(b, SStr):
                    v = I.B.decval(b.parts)
                    if v is None:
                        return Top("match")
                    b = v
                if self.ctx.opaque(("re", mode, p, fl, b), "%r.%s(%s)" % (p, mode, show(b))):
                    o2 = Obj(mc)
                    o2.ext = {"s": s, "mode": mode}
                    return o2
                return None
            return self.meth(f, mode)
        for n in ("match", "fullmatch", "search"):
            pc.ns[n] = run(n)
            m.ns[n] = (lambda n: nat(lambda p, s, flags=0: I.callm(compile_(p, flags), n, s), n))(n)

        def group(o, *a):
            if "m" in o.ext:
                return o.ext["m"].group(*a)
            if (not a or a == (0,)) and o.ext["mode"] == "fullmatch":
                return o.ext["s"]
            return Top("group")

        def end(o, *a):
            if "m" in o.ext:
                return o.ext["m"].end(*a)
            if o.ext["mode"] == "fullmatch":
                return I.len(o.ext["s"])
            return Top("match end")
        mc.ns["group"] = self.meth(group)
        mc.ns["end"] = self.meth(end)
        mc.ns["start"] = self.meth(lambda o, *a: o.ext["m"].start(*a) if "m" in o.ext else 0 if o.ext["mode"] != "search" else Top("start"))
        mc.ns["span"] = self.meth(lambda o, *a: o.ext["m"].span(*a) if "m" in o.ext else Top("span"))
        for n in ("findall", "finditer", "split", "sub", "subn"):
            m.ns[n] = nat((lambda n: lambda *a, **k: getattr(_re, n)(*a, **k) if I.B.conc(*a) and n != "finditer" else Top("re." + n))(n))
        m.ns["compile"] = nat(compile_, "compile")
        m.ns["escape"] = nat(lambda s: I.host(_re.escape, s))
        m.ns["error"] = self.cls("error", (I.B.exc["Exception"],), "re")
        m.ns["Pattern"], m.ns["Match"] = pc, mc
        for n in ("A", "ASCII", "I", "IGNORECASE", "S", "DOTALL", "M", "MULTILINE", "X", "VERBOSE", "L", "LOCALE", "U", "UNICODE"):
            m.ns[n] = int(getattr(_re, n))

    # ------------------------------------------------------------ misc
    def tick(self):
        self.clock += 1
        return 1000.0 + self.clock * 0.5

    def m_time(self, m):
        for n in ("time", "perf_counter", "monotonic", "process_time"):
            m.ns[n] = nat(self.tick, n)
        for n in ("time_ns", "perf_counter_ns", "monotonic_ns"):
            m.ns[n] = nat(lambda: int(self.tick() * 1e9), n)
        m.ns["sleep"] = nat(lambda s: self.I.event("sleep"), "sleep")
        m.ns["strftime"] = nat(lambda *a: SStr((("top", "time"),)))

    def m_os(self, m):
        I = self.I

        def ur(n):
            if isinstance(n, Top):
                raise Unsupported("urandom")
            n = I.B.unwrap(n)
            if not isinstance(n, (int, Lin)):
                I.throw("TypeError", "an integer is required")
            if self.ctx.le0(ladd(lin(n), 1)):
                I.throw("ValueError", "negative argument not allowed")
            return self.T.random(n, "os")
        m.ns["urandom"] = nat(ur, "urandom")
        env = Obj(self.cls("_Environ", None, "os"))
        env.seq = {}
        m.ns["environ"] = env
        m.ns["getenv"] = nat(lambda k, d=None: d)
        m.ns["getpid"] = nat(lambda: 4242)
        m.ns["name"] = "posix"
        m.ns["linesep"] = "\n"
        m.ns["sep"] = "/"

    def m_os__path(self, m):
        import posixpath
        for n in ("join", "basename", "dirname", "splitext"):
            m.ns[n] = nat((lambda f: lambda *a: f(*a) if self.I.B.conc(*a) else Top("path"))(getattr(posixpath, n)))

    def m_secrets(self, m):
        m.ns["token_bytes"] = nat(lambda n=32: self.T.random(n, "os"), "token_bytes")
        m.ns["compare_digest"] = self.I.import_("hmac").ns["compare_digest"]

    def m_random(self, m):
        I = self.I
        weak = lambda n: self.T.random(n, "weak")
        m.ns["randbytes"] = nat(weak, "randbytes")
        m.ns["getrandbits"] = nat(lambda n: self.ctx.dec(self.T.random(-(-n // 8), "weak")) if isinstance(n, int) else Top("getrandbits"))

        def ri(a, b):
            s = ("sym", "rand%d" % self.ctx.fresh("rand"))
            if isinstance(a, int) and isinstance(b, int):
                self.ctx.bounds[s] = (a, b)
            return latom(s)
        m.ns["randint"] = nat(ri)
        m.ns["randrange"] = nat(lambda a, b=None, s=1: ri(0, a - 1) if b is None else ri(a, b - 1))
        m.ns["random"] = nat(lambda: Top("random"))

    def m_hmac(self, m):
        I = self.I

        def cd(a, b):
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return I.eq(a, b)
            x, y = I.B.bufferlike(a), I.B.bufferlike(b)
            if x is None or y is None:
                if isinstance(a, Top) or isinstance(b, Top):
                    return Top("compare_digest")
                I.throw("TypeError", "unsupported operand types(s) or combination of types")
            return self.ctx.beq(x, y)
        m.ns["compare_digest"] = nat(cd, "compare_digest")

    def m_hashlib(self, m):
        I = self.I
        h = self.cls("HASH", None, "hashlib")

        def new(data=b"", **k):
            o = Obj(h)
            o.ext = {"data": self.buf(data)}
            return o

        def upd(o, d):
            o.ext["data"] = self.ctx.cat([o.ext["data"], self.buf(d)])
        h.ns["update"] = self.meth(upd)
        h.ns["digest"] = self.meth(lambda o: self.T.sha512(o.ext["data"]))
        h.ns["hexdigest"] = self.meth(lambda o: SStr((("hex", self.T.sha512(o.ext["data"])),)))
        h.ns["copy"] = self.meth(lambda o: new(o.ext["data"]))
        h.ns["digest_size"] = 64
        m.ns["sha512"] = nat(new, "sha512")
        m.ns["new"] = nat(lambda n, d=b"", **k: new(d) if n == "sha512" else Top("hash"))

    def m_sys(self, m):
        I = self.I
        m.ns["byteorder"] = "little"
        m.ns["maxsize"] = (1 << 63) - 1
        m.ns["version_info"] = (3, 12, 3, "final", 0)
        m.ns["platform"] = "linux"
        m.ns["argv"] = ["prog"]
        m.ns["path"] = []
        m.ns["version"] = "3.12.3"
        m.ns["modules"] = Top("sys.modules")
        m.ns["getsizeof"] = nat(lambda o, *a: I.callm(o, "__sizeof__") if isinstance(o, Obj) and o.cls.find("__sizeof__") else Top("getsizeof"))
        m.ns["exc_info"] = nat(lambda: Top("exc_info"))
        so = Obj(self.cls("TextIO", None, "sys"))
        so.cls.ns["write"] = self.meth(lambda o, s: I.event("print", (s,)))
        so.cls.ns["flush"] = self.meth(lambda o: None)
        m.ns["stdout"] = m.ns["stderr"] = so

    def m_logging(self, m):
        I = self.I
        lg = self.cls("Logger", None, "logging")
        lg.native = False

        def log(level):
            def f(o, *a, **k):
                extra = []
                if level == "exception" or k.get("exc_info"):
                    for fr in reversed(I.frames):
                        if fr.exc is not None:
                            extra.append(fr.exc)
                            break
                I.event("log", level, tuple(a) + tuple(extra))
            return f
        for n in ("debug", "info", "warning", "error", "critical", "exception", "warn"):
            lg.ns[n] = self.meth(log(n), n)
            m.ns[n] = (lambda n: nat(lambda *a, **k: log(n)(None, *a, **k), n))(n)
        lg.ns["log"] = self.meth(lambda o, lv, *a, **k: I.event("log", "log", tuple(a)))
        m.ns["log"] = nat(lambda lv, *a, **k: I.event("log", "log", tuple(a)))
        lg.ns["isEnabledFor"] = self.meth(lambda o, l: True)
        lg.ns["setLevel"] = self.meth(lambda o, l: None)
        lg.ns["addHandler"] = self.meth(lambda o, l: None)
        lg.ns["getEffectiveLevel"] = self.meth(lambda o: 10)
        root = Obj(lg)
        self.logger = root
        m.ns["getLogger"] = nat(lambda *a: root, "getLogger")
        m.ns["Logger"] = lg
        m.ns["basicConfig"] = nat(lambda *a, **k: None)
        for n, v in (("DEBUG", 10), ("INFO", 20), ("WARNING", 30), ("ERROR", 40), ("CRITICAL", 50), ("NOTSET", 0)):
            m.ns[n] = v

    def m_warnings(self, m):
        m.ns["warn"] = nat(lambda *a, **k: self.I.event("log", "warn", tuple(a)))
        m.ns["filterwarnings"] = m.ns["simplefilter"] = nat(lambda *a, **k: None)

    def m_traceback(self, m):
        for n in ("print_exc", "print_stack", "print_exception"):
            def f(*a, **k):
                extra = tuple(fr.exc for fr in self.I.frames if fr.exc is not None)
                self.I.event("log", "traceback", tuple(a) + extra)
            m.ns[n] = nat(f)
        m.ns["format_exc"] = nat(lambda *a: SStr((("top", "traceback"),)))

    def m_functools(self, m):
        I = self.I

        def wraps(f, *a, **k):
            def deco(g):
                if isinstance(g, Func):
                    try:
                        g.name = I.getattr(f, "__name__")
                    except PyExc:
                        pass
                    g.d["__wrapped__"] = f
                return g
            return nat(deco, "wraps")
        m.ns["wraps"] = nat(wraps, "wraps")
        m.ns["update_wrapper"] = nat(lambda g, f, *a, **k: g)

        def partial(I, a, k):
            f, pre, pk = a[0], a[1:], dict(k)

            def run(I, b, k2):
                kk = dict(pk)
                kk.update(k2)
                return I.call(f, pre + list(b), kk)
            p = Nat("partial", run)
            p.d.update(func=f, args=tuple(pre), keywords=pk)
            return p
        m.ns["partial"] = Nat("partial", partial)

        def partialmethod(I, a, k):
            f, pre, pk = a[0], a[1:], dict(k)
            return NMeth("partialmethod", lambda I, b, k2: I.call(f, [b[0]] + pre + list(b[1:]), dict(pk, **k2)))
        m.ns["partialmethod"] = Nat("partialmethod", partialmethod)

        def reduce(I, a, k):
            it = I.iterate(a[1])
            acc = a[2] if len(a) > 2 else None
            first = len(a) <= 2
            for v in it:
                if first:
                    acc, first = v, False
                else:
                    acc = I.call(a[0], [acc, v], {})
            if first:
                I.throw("TypeError", "reduce() of empty iterable with no initial value")
            return acc
        m.ns["reduce"] = Nat("reduce", reduce)

        def cache(f):
            memo = []

            def run(I, a, k):
                for (ka, kk, v) in memo:
                    if len(ka) == len(a) and kk.keys() == k.keys() and all(x is y or (type(x) is type(y) and isinstance(x, (int, str, bytes, Lin, SBytes)) and x == y) for x, y in list(zip(ka, a)) + [(kk[q], k[q]) for q in kk]):
                        return v
                v = I.call(f, list(a), k)
                memo.append((list(a), dict(k), v))
                return v
            n = NMeth(getattr(f, "name", "cached"), run)
            n.d["cache_clear"] = nat(lambda: memo.clear())
            n.d["__wrapped__"] = f
            return n
        m.ns["cache"] = nat(cache)
        m.ns["lru_cache"] = nat(lambda *a, **k: cache(a[0]) if a and not isinstance(a[0], int) and a[0] is not None else nat(cache))
        cp = self.cls("cached_property", None, "functools")
        cp.ns["__init__"] = self.meth(lambda o, f: o.d.update(f=f))
        cp.ns["__set_name__"] = self.meth(lambda o, c, n: o.d.update(n=n))

        def cpget(o, inst, owner=None):
            if inst is None:
                return o
            v = I.call(o.d["f"], [inst], {})
            inst.d[o.d["n"]] = v
            return v
        cp.ns["__get__"] = self.meth(cpget)
        m.ns["cached_property"] = cp
        m.ns["total_ordering"] = nat(lambda c: c)
        m.ns["cmp_to_key"] = nat(lambda f: Top("cmp_to_key"))

        def singledispatch(f):
            reg = []

            def run(I, a, k):
                for t, g in reg:
                    if I.truth(I.isinstance(a[0], t)):
                        return I.call(g, list(a), k)
                return I.call(f, list(a), k)
            n = Nat("singledispatch", run)

            def register(I, a, k):
                if len(a) > 1:
                    reg.append((a[0], a[1]))
                    return a[1]
                return nat(lambda g: (reg.append((a[0], g)), g)[1])
            n.d["register"] = Nat("register", register)
            return n
        m.ns["singledispatch"] = nat(singledispatch)

    def m_itertools(self, m):
        I = self.I
        it = lambda g: It(g)

        def chain(*xs):
            for x in xs:
                yield from I.iterate(x)

        def islice(x, *a):
            a = [None if q is None else I.B.index(q, 1 << 30) if isinstance(q, Lin) else q for q in a]
            s = slice(*a)
            i = 0
            start, stop, step = s.start or 0, s.stop, s.step or 1
            if stop is not None and stop <= start:
                return
            for v in I.iterate(x):
                if stop is not None and i >= stop:
                    return
                if i >= start and (i - start) % step == 0:
                    yield v
                i += 1
                if stop is not None and i >= stop:
                    return

        def count(a=0, s=1):
            i = a
            n = 0
            while True:
                yield i
                i = I.binop("+", i, s)
                n += 1
                if n > 5000:
                    raise Cut("count")

        def zl(*xs, fillvalue=None):
            gs = [I.iterate(x) for x in xs]
            while True:
                row, done = [], 0
                for g in gs:
                    try:
                        row.append(next(g))
                    except StopIteration:
                        row.append(fillvalue)
                        done += 1
                if done == len(gs):
                    return
                yield tuple(row)

        def acc(x, f=None, initial=None):
            t = initial
            first = initial is None
            if not first:
                yield t
            for v in I.iterate(x):
                t = v if first else (I.call(f, [t, v], {}) if f else I.binop("+", t, v))
                first = False
                yield t

        def repeat(v, n=None, times=None):
            n = n if times is None else times
            if n is not None and not isinstance(n, int):
                for _ in I.iterate(I.B.ctor_range([n], {})):
                    yield v
                return
            i = 0
            while n is None or i < n:
                yield v
                i += 1
                if n is None and i > 5000:
                    raise Cut("repeat")

        def tw(f, x):
            for v in I.iterate(x):
                if not I.truth(I.call(f, [v], {})):
                    return
                yield v
        m.ns["chain"] = Nat("chain", lambda I, a, k: It(chain(*a)))
        m.ns["chain"].d["from_iterable"] = nat(lambda x: It(chain(*list(I.iterate(x)))))
        m.ns["islice"] = nat(lambda *a: It(islice(*a)))
        m.ns["count"] = nat(lambda *a, **k: It(count(*a, **k)))
        m.ns["repeat"] = nat(lambda *a, **k: It(repeat(*a, **k)))
        m.ns["zip_longest"] = nat(lambda *a, **k: It(zl(*a, **k)))
        m.ns["accumulate"] = nat(lambda *a, **k: It(acc(*a, **k)))
        m.ns["takewhile"] = nat(lambda *a: It(tw(*a)))
        m.ns["starmap"] = nat(lambda f, x: It(I.call(f, list(I.iterate(v)), {}) for v in I.iterate(x)))
        m.ns["tee"] = nat(lambda x, n=2: tuple(It(iter(l)) for l in [list(I.iterate(x))] * n))

    def m_operator(self, m):
        I = self.I
        for n, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("or_", "|"), ("and_", "&"), ("xor", "^"), ("lshift", "<<"), ("rshift", ">>"),
                      ("floordiv", "//"), ("mod", "%"), ("concat", "+")):
            m.ns[n] = nat((lambda op: lambda a, b: I.binop(op, a, b))(op), n)
        for n, op in (("eq", ast.Eq), ("ne", ast.NotEq), ("lt", ast.Lt), ("le", ast.LtE), ("gt", ast.Gt), ("ge", ast.GtE)):
            m.ns[n] = nat((lambda op: lambda a, b: I.compare(op, a, b))(op), n)
        m.ns["is_"] = nat(lambda a, b: I.compare(ast.Is, a, b))
        m.ns["is_not"] = nat(lambda a, b: I.compare(ast.IsNot, a, b))
        m.ns["not_"] = nat(lambda a: not I.truth(a))
        m.ns["truth"] = nat(lambda a: I.truth(a))
        m.ns["contains"] = nat(lambda a, b: I.compare(ast.In, b, a))
        m.ns["getitem"] = nat(lambda a, b: I.getitem(a, b))
        m.ns["index"] = nat(lambda a: a)
        m.ns["itemgetter"] = nat(lambda *ks: nat(lambda o: I.getitem(o, ks[0]) if len(ks) == 1 else tuple(I.getitem(o, k) for k in ks)))

        def ag(*ns):
            def get(o):
                out = []
                for n in ns:
                    v = o
                    for p in n.split("."):
                        v = I.getattr(v, p)
                    out.append(v)
                return out[0] if len(ns) == 1 else tuple(out)
            return nat(get)
        m.ns["attrgetter"] = nat(ag)
        m.ns["methodcaller"] = nat(lambda n, *a, **k: nat(lambda o: I.callm(o, n, *a, **k)))

    def m_contextlib(self, m):
        I = self.I
        gc = self.cls("_GeneratorContextManager", None, "contextlib")

        def enter(o):
            r = o.ext["gen"].resume("send", None)
            if r[0] == "end":
                I.throw("RuntimeError", "generator didn't yield")
            return r[1]

        def exit(o, t=None, v=None, tb=None):
            g = o.ext["gen"]
            if v is None:
                r = g.resume("send", None)
                if r[0] != "end":
                    I.throw("RuntimeError", "generator didn't stop")
                return False
            try:
                r = g.resume("throw", v)
            except PyExc as e:
                if e.obj is v:
                    return False
                raise
            if r[0] != "end":
                I.throw("RuntimeError", "generator didn't stop after throw()")
            return True
        gc.ns["__enter__"] = self.meth(enter)
        gc.ns["__exit__"] = self.meth(exit)
        gc.ns["__aenter__"] = self.ameth(enter)
        gc.ns["__aexit__"] = self.ameth(exit)

        def deco(f):
            def mk(I, a, k):
                o = Obj(gc)
                o.ext = {"gen": I.call(f, list(a), k)}
                return o
            return NMeth(getattr(f, "name", "cm"), mk)
        m.ns["contextmanager"] = nat(deco)
        m.ns["asynccontextmanager"] = nat(deco)
        sup = self.cls("suppress", None, "contextlib")
        sup.ns["__init__"] = self.meth(lambda o, *cs: o.d.update(cs=tuple(cs)))
        sup.ns["__enter__"] = self.meth(lambda o: None)
        sup.ns["__exit__"] = self.meth(lambda o, t, v, tb: v is not None and I.exc_match(v, o.d["cs"]))
        m.ns["suppress"] = sup
        cl = self.cls("closing", None, "contextlib")
        cl.ns["__init__"] = self.meth(lambda o, x: o.d.update(x=x))
        cl.ns["__enter__"] = self.meth(lambda o: o.d["x"])
        cl.ns["__exit__"] = self.meth(lambda o, *a: I.callm(o.d["x"], "close") and False)
        m.ns["closing"] = cl
        nc = self.cls("nullcontext", None, "contextlib")
        nc.ns["__init__"] = self.meth(lambda o, x=None: o.d.update(x=x))
        nc.ns["__enter__"] = self.meth(lambda o: o.d["x"])
        nc.ns["__exit__"] = self.meth(lambda o, *a: None)
        m.ns["nullcontext"] = nc

    def m_dataclasses(self, m):
        I = self.I
        MISSING = Obj(self.cls("_MISSING_TYPE", None, "dataclasses"))
        fc = self.cls("Field", None, "dataclasses")
        m.ns["MISSING"] = MISSING

        def field(**k):
            o = Obj(fc)
            o.ext = k
            return o
        m.ns["field"] = nat(field)

        def make(cls, frozen=False, init=True, eq=True, **k):
            fields = []
            for b in reversed(cls.mro):
                for f in (b.ext.get("dc") or ()):
                    if f not in fields:
                        fields.append(f)
            dflt = dict()
            for b in reversed(cls.mro[1:]):
                dflt.update(b.ext.get("dcdef", {}))
            for n in cls.ns.get("__annotations__", {}):
                if n not in fields:
                    fields.append(n)
                if n in cls.ns:
                    dflt[n] = cls.ns[n]
                    if isinstance(cls.ns[n], Obj) and cls.ns[n].cls is fc:
                        e = cls.ns.pop(n).ext
                        if "default" in e:
                            cls.ns[n] = e["default"]
            cls.ext["dc"] = tuple(fields)
            cls.ext["dcdef"] = dflt

            def init_(I, a, kw):
                o = a[0]
                vals = dict(zip(fields, a[1:]))
                if len(a) - 1 > len(fields):
                    I.throw("TypeError", "too many arguments")
                for n, v in kw.items():
                    if n not in fields:
                        I.throw("TypeError", "unexpected keyword argument")
                    vals[n] = v
                for f in fields:
                    if f not in vals:
                        if f not in dflt:
                            I.throw("TypeError", "missing argument '%s'" % f)
                        d = dflt[f]
                        if isinstance(d, Obj) and d.cls is fc:
                            if "default_factory" in d.ext:
                                d = I.call(d.ext["default_factory"], [], {})
                            elif "default" in d.ext:
                                d = d.ext["default"]
                            else:
                                I.throw("TypeError", "missing argument '%s'" % f)
                        vals[f] = d
                    o.d[f] = vals[f]
                if o.cls.find("__post_init__") is not None:
                    I.callm(o, "__post_init__")
            if init and "__init__" not in cls.ns:
                cls.ns["__init__"] = NMeth("__init__", init_)
            if eq and "__eq__" not in cls.ns:
                cls.ns["__eq__"] = self.meth(lambda o, x: I.eq(tuple(o.d[f] for f in fields), tuple(x.d[f] for f in fields)) if isinstance(x, Obj) and x.cls is o.cls else NotImplemented)
            if frozen:
                cls.ext["frozen"] = True
            return cls

        def dataclass(*a, **k):
            if a:
                return make(a[0])
            return nat(lambda c: make(c, **k))
        m.ns["dataclass"] = nat(dataclass)
        m.ns["asdict"] = nat(lambda o: {f: o.d[f] for f in o.cls.ext["dc"]})
        m.ns["astuple"] = nat(lambda o: tuple(o.d[f] for f in o.cls.ext["dc"]))

        def repl(o, **k):
            n = Obj(o.cls)
            n.d = dict(o.d)
            n.d.update(k)
            return n
        m.ns["replace"] = nat(repl)

    def m_inspect(self, m):
        m.ns["iscoroutinefunction"] = nat(self.isco)
        m.ns["iscoroutine"] = nat(lambda v: isinstance(v, Coro))
        m.ns["isawaitable"] = nat(lambda v: isinstance(v, Coro) or isinstance(v, Obj) and (bool(v.ext and "result" in v.ext) or v.cls.find("__await__") is not None))
        m.ns["isfunction"] = nat(lambda v: isinstance(v, Func))
        m.ns["ismethod"] = nat(lambda v: isinstance(v, BMeth))
        m.ns["isclass"] = nat(lambda v: isinstance(v, Cls))
        m.ns["isabstract"] = nat(lambda v: Top("isabstract"))

    def m_copy(self, m):
        I = self.I

        def cp(v, deep, memo=None):
            memo = {} if memo is None else memo
            if id(v) in memo:
                return memo[id(v)]
            if isinstance(v, BArr):
                r = BArr(v.v)
            elif isinstance(v, (list, tuple)):
                r = type(v)(cp(x, deep, memo) if deep else x for x in v)
            elif isinstance(v, dict):
                r = {k: cp(x, deep, memo) if deep else x for k, x in v.items()}
            elif isinstance(v, set):
                r = set(v)
            elif isinstance(v, Deque):
                r = Deque([cp(x, deep, memo) if deep else x for x in v.v], v.maxlen)
            elif isinstance(v, Obj):
                if "enum" in v.cls.ext or v.seq is not None and isinstance(v.seq, tuple):
                    return v
                r = Obj(v.cls)
                memo[id(v)] = r
                r.ext, r.off = v.ext, v.off
                if v.mem is not None:
                    r.mem, r.off = BArr(self.ct.raw(v)), 0
                r.seq = cp(v.seq, deep, memo) if v.seq is not None else None
                r.d = {k: cp(x, deep, memo) if deep else x for k, x in v.d.items()}
                return r
            else:
                return v
            memo[id(v)] = r
            return r
        m.ns["copy"] = nat(lambda v: cp(v, False))
        m.ns["deepcopy"] = nat(lambda v, *a: cp(v, True))

    def m_zlib(self, m):
        I = self.I

        def sum_(name):
            def f(d, start=None):
                b = I.B.bufferlike(d)
                if b is None:
                    I.throw("TypeError", "a bytes-like object is required")
                if isinstance(b, bytes) and (start is None or isinstance(start, int)):
                    z = getattr(__import__("zlib"), name)
                    return z(b) if start is None else z(b, start)
                return I.B.fnint(name, b, 0, 0xffffffff) if start is None else Top(name)
            return nat(f)
        m.ns["crc32"], m.ns["adler32"] = sum_("crc32"), sum_("adler32")

    def m_binascii(self, m):
        I = self.I
        m.ns["crc32"] = I.import_("zlib").ns["crc32"]
        m.ns["hexlify"] = nat(lambda b, *a: I.host(lambda: __import__("binascii").hexlify(b)) if isinstance(b, bytes) else Top("hexlify"))
        m.ns["unhexlify"] = nat(lambda s: I.host(bytes.fromhex, s if isinstance(s, str) else s.decode()) if isinstance(s, (str, bytes)) else Top("unhexlify"))
        m.ns["b2a_hex"], m.ns["a2b_hex"] = m.ns["hexlify"], m.ns["unhexlify"]
        m.ns["Error"] = I.B.exc["ValueError"]

    def m_codecs(self, m):
        m.ns["encode"] = nat(lambda v, enc="utf-8": Top("codecs"))

    def m_math(self, m):
        for n in dir(_math):
            if n.startswith("_"):
                continue
            v = getattr(_math, n)
            m.ns[n] = nat((lambda v: lambda *a: self.I.host(v, *a) if self.I.B.conc(*a) else Top("math"))(v), n) if callable(v) else v

    def m_types(self, m):
        B = self.I.B
        for n, t in (("FunctionType", "function"), ("MethodType", "method"), ("ModuleType", "module"), ("GeneratorType", "generator"),
                     ("CoroutineType", "coroutine"), ("NoneType", "NoneType")):
            m.ns[n] = B.types[t]
        m.ns["LambdaType"] = B.types["function"]
        B.types["method"].ctor = lambda I, c, a, k: BMeth(a[0], a[1])
        m.ns["SimpleNamespace"] = self.cls("SimpleNamespace", None, "types")
        m.ns["SimpleNamespace"].ns["__init__"] = self.meth(lambda o, **k: o.d.update(k))
        m.ns["MappingProxyType"] = nat(lambda d: d)
        m.ns["coroutine"] = nat(lambda f: f)

    def m_threading(self, m):
        I = self.I
        lk = self.cls("lock", None, "threading")
        lk.ns["acquire"] = self.meth(lambda o, *a, **k: True)
        lk.ns["release"] = self.meth(lambda o: None)
        lk.ns["__enter__"] = self.meth(lambda o: True)
        lk.ns["__exit__"] = self.meth(lambda o, *a: None)
        lk.ns["locked"] = self.meth(lambda o: False)
        m.ns["Lock"] = m.ns["RLock"] = m.ns["Semaphore"] = m.ns["Condition"] = lk
        ev = self.cls("Event", None, "threading")
        ev.ns["__init__"] = self.meth(lambda o: o.d.update(f=False))
        ev.ns["set"] = self.meth(lambda o: o.d.update(f=True))
        ev.ns["is_set"] = self.meth(lambda o: o.d["f"])
        ev.ns["wait"] = self.meth(lambda o, *a: o.d["f"])
        m.ns["Event"] = ev
        lo = self.cls("local", None, "threading")
        m.ns["local"] = lo
        m.ns["Thread"] = Top("threading.Thread")
        m.ns["current_thread"] = nat(lambda: Top("thread"))
        m.ns["get_ident"] = nat(lambda: 1)

    def m_socket(self, m):
        B = self.I.B
        m.ns["error"] = B.exc["OSError"]
        m.ns["timeout"] = B.exc["TimeoutError"]
        m.ns["gaierror"] = self.cls("gaierror", (B.exc["OSError"],), "socket")
        for n, v in (("AF_INET", 2), ("SOCK_STREAM", 1), ("SHUT_RDWR", 2), ("SHUT_WR", 1), ("SOL_SOCKET", 1), ("SO_REUSEADDR", 2),
                     ("MSG_WAITALL", 256), ("MSG_PEEK", 2), ("MSG_DONTWAIT", 64), ("IPPROTO_TCP", 6), ("TCP_NODELAY", 1)):
            m.ns[n] = v

    def m_errno(self, m):
        import errno
        for n in dir(errno):
            if n.startswith("E"):
                m.ns[n] = getattr(errno, n)

    def m_io(self, m):
        I = self.I
        b = self.cls("BytesIO", None, "io")

        def init(o, v=b""):
            o.mem, o.ext = BArr(self.buf(v)), {"pos": Lin(0)}

        def read(o, n=-1):
            c = self.ctx
            L = c.blen(o.mem.v)
            p = o.ext["pos"]
            if n is None or (isinstance(n, int) and n < 0):
                r = c.pyslice(o.mem.v, p, None)
            else:
                if isinstance(n, Lin) and c.le0(ladd(n, 1)):
                    r = c.pyslice(o.mem.v, p, None)
                else:
                    r = c.pyslice(o.mem.v, p, c.norm(ladd(p, n)))
            o.ext["pos"] = c.norm(ladd(p, c.blen(r)))
            return r

        def write(o, d):
            c = self.ctx
            d = self.buf(d)
            p = o.ext["pos"]
            n = c.blen(d)
            L = c.blen(o.mem.v)
            if c.known_eq0(lsub(p, L)):
                o.mem.v = c.cat([o.mem.v, d])
            else:
                o.mem.v = c.cat([c.pyslice(o.mem.v, Lin(0), p), d, c.pyslice(o.mem.v, c.norm(ladd(p, n)), None)])
            o.ext["pos"] = c.norm(ladd(p, n))
            return pyint(n)

        def seek(o, p, w=0):
            o.ext["pos"] = lin(p) if w == 0 else ladd(o.ext["pos"] if w == 1 else self.ctx.blen(o.mem.v), p)
            return pyint(o.ext["pos"])
        b.ns["__init__"] = self.meth(init)
        b.ns["read"] = self.meth(read)
        b.ns["write"] = self.meth(write)
        b.ns["seek"] = self.meth(seek)
        b.ns["tell"] = self.meth(lambda o: pyint(o.ext["pos"]))
        b.ns["getvalue"] = self.meth(lambda o: o.mem.v)
        b.ns["getbuffer"] = self.meth(lambda o: MView(o.mem, Lin(0), self.ctx.blen(o.mem.v)))
        b.ns["__enter__"] = self.meth(lambda o: o)
        b.ns["__exit__"] = self.meth(lambda o, *a: None)
        b.ns["close"] = self.meth(lambda o: None)
        m.ns["BytesIO"] = b
        m.ns["StringIO"] = Top("StringIO")

    def m_importlib(self, m):
        def imp(n, *a):
            if not isinstance(n, str):
                raise Unsupported("import_module")
            return self.I.import_(n)
        m.ns["import_module"] = nat(imp)

    def m_array(self, m):
        m.ns["array"] = nat(lambda t, v=(): BArr(self.I.B.tobytes(v)) if t == "B" else Top("array"))

    def m_weakref(self, m):
        m.ns["ref"] = nat(lambda o, *a: nat(lambda: o))
        m.ns["proxy"] = nat(lambda o, *a: o)
