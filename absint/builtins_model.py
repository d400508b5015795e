"""Abstract semantics of the Python built-in types, operators and functions."""
import ast
import re as _re
import string

from .domain import *
from .interp import (Bag, BList, same_kind, BArr, BMeth, CMeth, Cls, Coro, Deque, Func, Gen, It, MView, Mod, NDesc, NMeth, Nat, Obj, Prop, PyExc,
                     SMeth, SStr, Super, SymSeq, Top, Unsupported, BYTESY, INTS, DUNDER, HOSTBIN)

NOTFOUND = object()

EXC_TREE = {
    "BaseException": None, "Exception": "BaseException", "GeneratorExit": "BaseException", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "ArithmeticError": "Exception", "OverflowError": "ArithmeticError",
    "ZeroDivisionError": "ArithmeticError", "AssertionError": "Exception", "AttributeError": "Exception",
    "BufferError": "Exception", "EOFError": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "LookupError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError", "MemoryError": "Exception",
    "NameError": "Exception", "UnboundLocalError": "NameError", "OSError": "Exception", "BlockingIOError": "OSError",
    "ConnectionError": "OSError", "BrokenPipeError": "ConnectionError", "ConnectionAbortedError": "ConnectionError",
    "ConnectionResetError": "ConnectionError", "ConnectionRefusedError": "ConnectionError", "FileNotFoundError": "OSError",
    "InterruptedError": "OSError", "PermissionError": "OSError", "TimeoutError": "OSError", "ReferenceError": "Exception",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
    "StopIteration": "Exception", "StopAsyncIteration": "Exception", "SyntaxError": "Exception", "SystemError": "Exception",
    "TypeError": "Exception", "ValueError": "Exception", "UnicodeError": "ValueError", "UnicodeDecodeError": "UnicodeError",
    "UnicodeEncodeError": "UnicodeError", "Warning": "Exception", "DeprecationWarning": "Warning", "UserWarning": "Warning",
    "RuntimeWarning": "Warning", "FileExistsError": "OSError", "ProcessLookupError": "OSError", "ChildProcessError": "OSError",
    "IsADirectoryError": "OSError", "NotADirectoryError": "OSError",
}


def isint(v):
    return isinstance(v, (int, Lin))


def symk(t):
    return any(isinstance(x, (Lin, SBytes, SStr)) or isinstance(x, tuple) and symk(x) for x in t)


class Builtins:
    def __init__(self, I):
        self.I = I
        self.ctx = I.ctx
        self.OBJECT = Cls("object", ())
        self.TYPE = Cls("type", (self.OBJECT,))
        self.OBJECT.meta = self.TYPE.meta = self.TYPE
        self.ABCMETA = Cls("ABCMeta", (self.TYPE,), meta=self.TYPE, mod="abc")
        self.OBJECT.ns["__new__"] = Nat("object.__new__", self.object_new)
        self.OBJECT.ns["__init__"] = NMeth("object.__init__", self.object_init)
        self.OBJECT.ns["__setattr__"] = NMeth("object.__setattr__", lambda I, a, k: I.setattr_plain(a[0], a[1], a[2]))
        self.OBJECT.ns["__getattribute__"] = NMeth("object.__getattribute__", self.object_getattr)
        self.OBJECT.ns["__delattr__"] = NMeth("object.__delattr__", lambda I, a, k: self.object_delattr(*a))
        self.OBJECT.ns["__init_subclass__"] = CMeth(Nat("__init_subclass__", lambda I, a, k: None))
        self.TYPE.ns["__call__"] = NMeth("type.__call__", lambda I, a, k: I.type_call(a[0], a[1:], k))
        self.TYPE.ns["__new__"] = Nat("type.__new__", lambda I, a, k: I.type_new(a[0], a[1], tuple(a[2]), a[3], k))
        self.TYPE.ns["__init__"] = NMeth("type.__init__", lambda I, a, k: None)
        self.ABCMETA.ns["register"] = NMeth("register", lambda I, a, k: a[1])
        self.types = {}
        for n in ("int", "float", "str", "bytes", "bytearray", "memoryview", "list", "tuple", "dict", "set", "frozenset",
                  "range", "slice", "function", "builtin_function_or_method", "method", "module", "NoneType", "generator",
                  "coroutine", "property", "staticmethod", "classmethod", "deque", "ellipsis", "iterator", "complex"):
            self.types[n] = Cls(n, (self.OBJECT,), meta=self.TYPE)
        self.types["bool"] = Cls("bool", (self.types["int"],), meta=self.TYPE)
        for n, c in self.types.items():
            ct = getattr(self, "ctor_" + n, None)
            c.ctor = (lambda f: lambda I, cls, a, k: f(a, k))(ct) if ct else None
            c.native = True
        self.exc = {}
        for n, b in EXC_TREE.items():
            self.exc[n] = Cls(n, (self.exc[b],) if b else (self.OBJECT,), meta=self.TYPE)
        BE = self.exc["BaseException"]
        BE.ns["__new__"] = Nat("BaseException.__new__", self.exc_new)
        BE.ns["__init__"] = NMeth("BaseException.__init__", self.exc_init)
        BE.ns["with_traceback"] = NMeth("with_traceback", lambda I, a, k: a[0])
        BE.ns["add_note"] = NMeth("add_note", lambda I, a, k: None)
        for c in (self.OBJECT, self.TYPE, self.ABCMETA):
            c.native = True
        for c in self.exc.values():
            c.native = True
        ns = self.ns = {}
        ns.update({k: self.types[k] for k in ("int", "float", "str", "bytes", "bytearray", "memoryview", "list", "tuple", "dict",
                                              "set", "frozenset", "range", "slice", "bool", "complex")})
        ns["property"] = self.types["property"]
        ns["staticmethod"] = self.types["staticmethod"]
        ns["classmethod"] = self.types["classmethod"]
        ns["object"], ns["type"] = self.OBJECT, self.TYPE
        ns.update(self.exc)
        ns["IOError"] = ns["EnvironmentError"] = self.exc["OSError"]
        ns["None"], ns["True"], ns["False"], ns["Ellipsis"], ns["NotImplemented"] = None, True, False, Ellipsis, NotImplemented
        ns["__name__"] = "builtins"
        ns["__debug__"] = True
        for n in dir(self):
            if n.startswith("b_"):
                f = getattr(self, n)
                ns[n[2:]] = Nat(n[2:], (lambda f: lambda I, a, k: f(*a, **k))(f))

    # ------------------------------------------------------------------ object protocol natives
    def object_new(self, I, a, k):
        return Obj(a[0])

    def object_init(self, I, a, k):
        if len(a) > 1 or k:
            nw = a[0].cls.find("__new__")
            if not isinstance(nw, (Func, SMeth)):
                I.throw("TypeError", "%s() takes no arguments" % a[0].cls.name)

    def object_getattr(self, I, a, k):
        o, n = a[0], a[1]
        v = o.cls.find(n)
        if isinstance(v, (Prop, NDesc)):
            return I.bind(v, o)
        if n in o.d:
            return o.d[n]
        if v is not None:
            return I.bind(v, o)
        I.throw("AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, n))

    def exc_new(self, I, a, k):
        o = Obj(a[0])
        o.d["args"] = tuple(a[1:])
        return o

    def exc_init(self, I, a, k):
        a[0].d["args"] = tuple(a[1:])
        if a[0].cls.sub(self.exc["OSError"]) and len(a) >= 3:
            a[0].d["errno"] = a[1]
            a[0].d["strerror"] = a[2]
        if a[0].cls.sub(self.exc["StopIteration"]):
            a[0].d["value"] = a[1] if len(a) > 1 else None

    def obj_attr(self, o, name):
        """implicit attributes of instances"""
        if o.cls.sub(self.exc["BaseException"]) if "BaseException" in self.exc else False:
            if name in ("__cause__", "__context__", "__traceback__"):
                return o.d.get(name)
            if name in ("errno", "strerror", "reason", "value"):
                return Top("exc." + name)
        if o.seq is not None:
            return self.host_attr_opt(o.seq, name)
        if name == "__str__":
            return Nat("__str__", lambda I, a, k: self.str(o))
        if name == "__repr__":
            return Nat("__repr__", lambda I, a, k: self.repr(o))
        if name == "__format__":
            return Nat("__format__", lambda I, a, k: self.format(o, a[0]))
        if name == "__eq__":
            return Nat("__eq__", lambda I, a, k: a[0] is o)
        if name == "__hash__":
            return Nat("__hash__", lambda I, a, k: id(o))
        if name == "__doc__":
            return None
        if name == "__module__":
            return o.cls.mod
        if name == "__ne__":
            return Nat("__ne__", lambda I, a, k: not self.truth(self.eq(o, a[0])))
        return None

    def host_attr_opt(self, v, name):
        try:
            return self.host_attr(v, name)
        except PyExc as e:
            return None

    # ------------------------------------------------------------------ types
    def type_of(self, v):
        T = self.types
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Cls):
            return v.meta or self.TYPE
        if isinstance(v, bool):
            return T["bool"]
        if isinstance(v, (int, Lin)):
            return T["int"]
        if isinstance(v, (bytes, SBytes)):
            return T["bytes"]
        if isinstance(v, (str, SStr)):
            return T["str"]
        if v is None:
            return T["NoneType"]
        if isinstance(v, BArr):
            return T[v.kind if isinstance(v, BList) else "bytearray"]
        if isinstance(v, MView):
            return T["memoryview"]
        for h, n in ((float, "float"), (tuple, "tuple"), (list, "list"), (dict, "dict"), (set, "set"), (frozenset, "frozenset"),
                     (range, "range"), (slice, "slice"), (Func, "function"), (BMeth, "method"), (Nat, "builtin_function_or_method"),
                     (Mod, "module"), (Gen, "generator"), (Coro, "coroutine"), (Prop, "property"), (SMeth, "staticmethod"),
                     (CMeth, "classmethod"), (Deque, "deque"), (It, "iterator")):
            if isinstance(v, h):
                return T[n]
        if isinstance(v, SymSeq):
            return T["tuple"] if v.tup else T["list"]
        if v is Ellipsis:
            return T["ellipsis"]
        if isinstance(v, Top):
            return Top("type")
        return self.OBJECT

    def isinstance(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinstance(v, x) for x in t)
        if isinstance(v, Top) or isinstance(t, Top):
            return Top("isinstance")
        if isinstance(t, Obj) and t.ext and "isinst" in t.ext:
            return t.ext["isinst"](v)
        if not isinstance(t, Cls):
            self.I.throw("TypeError", "isinstance() arg 2 must be a type")
        chk = t.ext.get("isinst")
        if chk is not None:
            return chk(v)
        c = self.type_of(v)
        if isinstance(c, Top):
            return c
        return c.sub(t)

    # ------------------------------------------------------------------ truth, equality, ordering
    def truth(self, v):
        ctx = self.ctx
        if v is None or isinstance(v, (bool, int, float, str, bytes, tuple, list, dict, set, frozenset, range)):
            return bool(v)
        if isinstance(v, Lin):
            return not ctx.eq0(v)
        if isinstance(v, SBytes):
            return not ctx.eq0(ctx.blen(v))
        if isinstance(v, (BArr, MView)):
            return not ctx.eq0(ctx.blen(self.bval(v)))
        if isinstance(v, Deque):
            return bool(v.v)
        if isinstance(v, SStr):
            if any(isinstance(p, str) and p or not isinstance(p, str) and p[0] in ("int", "repr") for p in v.parts):
                return True
            for p in v.parts:
                if not isinstance(p, str) and p[0] in ("hex", "decode"):
                    if not ctx.eq0(ctx.blen(p[1])):
                        return True
                elif not isinstance(p, str):
                    return self.truth(Top("str"))
            return False
        if isinstance(v, Top):
            self.I.imprec("branch on unknown value (%s)" % v.why)
            return ctx.choose(2, "unknown: %s" % v.why) == 0
        if isinstance(v, SymSeq):
            return not ctx.eq0(lin(v.n))
        if isinstance(v, Obj):
            m = v.cls.find("__bool__")
            if m is not None:
                return self.truth(self.I.call(self.I.bind(m, v), [], {}))
            if "int_value" in v.cls.ext:
                return self.truth(v.d["_value_"])
            m = v.cls.find("__len__")
            if m is not None:
                return self.truth(self.I.call(self.I.bind(m, v), [], {}))
            if v.seq is not None:
                return self.truth(v.seq)
            if "clen" in v.cls.ext:          # ctypes array
                return not ctx.eq0(lin(v.cls.ext["clen"]))
            return True
        if v is NotImplemented:
            return True
        return True

    def bval(self, v):
        """current bytes value of a bytes-like host/abstract value"""
        if isinstance(v, (bytes, SBytes)):
            return v
        if isinstance(v, BArr):
            return v.v
        if isinstance(v, MView):
            b = self.bval(v.base)
            return self.ctx.bslice(b, lin(v.lo), lin(v.hi)) if v.hi is not None else b
        return None

    def eq(self, a, b):
        if a is b and not isinstance(a, (float, Top)):
            return True
        if isinstance(a, Bag) and isinstance(b, Bag) and a.kind == b.kind:
            return self.ctx.beq(a.v, b.v) or self.ctx.opaque((a.kind + "eq", a.v, b.v), "%s(%s) == %s(%s)" % (a.kind, show(a.v), a.kind, show(b.v)))
        if isinstance(a, Top) or isinstance(b, Top):
            return Top("==")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                m = x.cls.find("__eq__")
                if isinstance(m, (Func, NMeth)):
                    r = self.I.call(self.I.bind(m, x), [y], {})
                    if r is not NotImplemented:
                        return r
        a = self.unwrap(a)
        b = self.unwrap(b)
        if isint(a) and isint(b):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            return self.ctx.eq0(lsub(lin(a), lin(b)))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        if isinstance(a, BYTESY) and isinstance(b, BYTESY):
            if (a.kind if isinstance(a, BList) else "") != (b.kind if isinstance(b, BList) else ""):
                return False
            return self.ctx.beq(self.bval(a), self.bval(b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, BList) and isinstance(y, (list, tuple)):
                if x.kind != ("list" if isinstance(y, list) else "tuple") or not self.ctx.eq0(lsub(self.ctx.blen(x.v), Lin(len(y)))):
                    return False
                return all([self.truth(self.eq(self.getitem(x, i), y[i])) for i in range(len(y))])
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.streq(a, b)
        if isinstance(a, Deque) and isinstance(b, Deque):
            a, b = a.v, b.v
        for t in (list, tuple):
            if isinstance(a, t) and isinstance(b, t):
                if len(a) != len(b):
                    return False
                for x, y in zip(a, b):
                    if not self.truth(self.eq(x, y)):
                        return False
                return True
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            return all(self.truth(self.eq(a[k], b[k])) for k in a)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return a == b or len(a) == len(b) and all(self.dkey(b, x) in b for x in list(a))
        if isinstance(a, BMeth) and isinstance(b, BMeth):
            return a == b
        if isinstance(a, range) and isinstance(b, range):
            return a == b
        if isinstance(a, SymSeq) or isinstance(b, SymSeq):
            return Top("sequence ==")
        return False

    def unwrap(self, v):
        if isinstance(v, Obj):
            if "int_value" in v.cls.ext or "str_value" in v.cls.ext:
                return v.d["_value_"]
            if v.seq is not None:
                return v.seq
        return v

    def streq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if a == b:
            return True
        pa = a.parts if isinstance(a, SStr) else (a,)
        pb = b.parts if isinstance(b, SStr) else (b,)
        ha, hb = self.hexval(pa), self.hexval(pb)
        if ha is not None and hb is not None:
            return self.ctx.beq(ha, hb)
        da, db = self.decval(pa), self.decval(pb)
        if da is not None and db is not None:
            return self.ctx.beq(da, db)
        return self.ctx.opaque(("streq", tuple(sorted((repr(a), repr(b))))), "string equality")

    def hexval(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                try:
                    if p != p.lower():
                        return None
                    out.append(bytes.fromhex(p))
                except ValueError:
                    return None
            elif p[0] == "hex":
                out.append(p[1])
            else:
                return None
        return self.ctx.cat(out)

    def decval(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p.isascii():
                    return None
                out.append(p.encode())
            elif p[0] == "decode":
                out.append(p[1])
            else:
                return None
        return self.ctx.cat(out)

    def compare(self, op, a, b):
        I = self.I
        if op is ast.Is or op is ast.IsNot:
            r = self.is_(a, b)
            if isinstance(r, Top):
                return r
            return r if op is ast.Is else not r
        if op is ast.Eq:
            return self.eq(a, b)
        if op is ast.NotEq:
            if isinstance(a, Obj):
                m = a.cls.find("__ne__")
                if isinstance(m, (Func, NMeth)):
                    return I.call(I.bind(m, a), [b], {})
            r = self.eq(a, b)
            return r if isinstance(r, Top) else not self.truth(r)
        if op is ast.In:
            return self.contains(b, a)
        if op is ast.NotIn:
            r = self.contains(b, a)
            return r if isinstance(r, Top) else not self.truth(r)
        return self.order(op, a, b)

    def is_(self, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            if a is b:
                return True
            return Top("is")
        if isinstance(a, (int, str, bytes)) and isinstance(b, (int, str, bytes)) and not isinstance(a, bool) and not isinstance(b, bool):
            return type(a) is type(b) and a == b
        if isinstance(a, Lin) and isinstance(b, (int, Lin)) and not isinstance(b, bool) or isinstance(b, Lin) and isinstance(a, int) and not isinstance(a, bool):
            return self.ctx.eq0(lsub(lin(a), lin(b)))
        if isinstance(a, BMeth) and isinstance(b, BMeth):
            return a == b
        if isinstance(a, SBytes) and isinstance(b, SBytes):
            return a is b
        return a is b

    def order(self, op, a, b):
        I = self.I
        nm = {ast.Lt: ("__lt__", "__gt__"), ast.LtE: ("__le__", "__ge__"), ast.Gt: ("__gt__", "__lt__"), ast.GtE: ("__ge__", "__le__")}[op]
        if isinstance(a, Top) or isinstance(b, Top):
            return Top("order")
        if isinstance(a, Obj) and isinstance(a.cls.find(nm[0]), (Func, NMeth)):
            r = I.call(I.bind(a.cls.find(nm[0]), a), [b], {})
            if r is not NotImplemented:
                return r
        if isinstance(b, Obj) and isinstance(b.cls.find(nm[1]), (Func, NMeth)):
            r = I.call(I.bind(b.cls.find(nm[1]), b), [a], {})
            if r is not NotImplemented:
                return r
        a, b = self.unwrap(a), self.unwrap(b)
        if isint(a) and isint(b):
            if isinstance(a, int) and isinstance(b, int):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
            c = self.ctx
            return {ast.Lt: c.lt, ast.LtE: c.le}[op](lin(a), lin(b)) if op in (ast.Lt, ast.LtE) else \
                (c.lt(lin(b), lin(a)) if op is ast.Gt else c.le(lin(b), lin(a)))
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num) or isinstance(a, str) and isinstance(b, str) or isinstance(a, bytes) and isinstance(b, bytes):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
        if isinstance(a, (float, Lin, int)) and isinstance(b, (float, Lin, int)):
            if isinstance(b, float) and b == int(b) if isinstance(b, float) and abs(b) < 1e18 else False:
                return self.order(op, a, int(b))
            if isinstance(a, float) and abs(a) < 1e18 and a == int(a):
                return self.order(op, int(a), b)
            return Top("float order")
        if isinstance(a, BYTESY) and isinstance(b, BYTESY) or isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return Top("lexicographic order")
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            for x, y in zip(a, b):
                if not self.truth(self.eq(x, y)):
                    strict = {ast.LtE: ast.Lt, ast.GtE: ast.Gt}.get(op, op)
                    return self.order(strict, x, y)
            return {ast.Lt: len(a) < len(b), ast.LtE: len(a) <= len(b), ast.Gt: len(a) > len(b), ast.GtE: len(a) >= len(b)}[op]
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
        I.throw("TypeError", "'%s' not supported between instances of '%s' and '%s'" % (op.__name__, self.type_of(a).name, self.type_of(b).name))

    def contains(self, c, x):
        I = self.I
        if isinstance(c, Top) or isinstance(x, Top):
            return Top("in")
        if isinstance(c, Obj):
            m = c.cls.find("__contains__")
            if m is not None:
                return self.truth(I.call(I.bind(m, c), [x], {}))
            c2 = self.unwrap(c)
            if c2 is not c:
                return self.contains(c2, x)
        if isinstance(c, (dict, set, frozenset)):
            if isinstance(x, Lin) and len(c) > 4 and all(isinstance(k, int) for k in c):
                return self.inset(x, frozenset(c))
            try:
                return self.dkey(c, I.hkey(x)) in c
            except TypeError:
                I.throw("TypeError", "unhashable type")
        if isinstance(c, BYTESY):
            b = self.bval(c)
            if isint(x):
                if isinstance(b, bytes):
                    if isinstance(x, int):
                        return I.host(lambda: x in b)
                    return self.inset(x, frozenset(b))
            elif isinstance(x, BYTESY):
                y = self.bval(x)
                if isinstance(b, bytes) and isinstance(y, bytes):
                    return y in b
                n = self.ctx.norm(self.ctx.blen(y))
                if isinstance(b, bytes) and not n.t and n.c == 1:
                    return self.inset(self.ctx.dec(y), frozenset(b))
                return self.ctx.opaque(("in", b, y), "substring")
            else:
                I.throw("TypeError", "a bytes-like object is required")
            n = self.ctx.norm(self.ctx.blen(b))
            if not n.t and n.c <= 64:
                return any(self.truth(self.eq(x, y)) for y in self.iterate(b))
            return self.ctx.opaque(("in", b, x), "byte in bytes")
        if isinstance(c, (str, SStr)):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if not isinstance(x, (str, SStr)):
                I.throw("TypeError", "'in <string>' requires string as left operand")
            if isinstance(c, str) and isinstance(x, SStr) and len(x.parts) == 1 and x.parts[0][0] == "decode":
                y = x.parts[0][1]
                n = self.ctx.norm(self.ctx.blen(y))
                if not n.t and n.c == 1:
                    return self.inset(self.ctx.dec(y), frozenset(ord(ch) for ch in c if ord(ch) < 256))
            return self.ctx.opaque(("in", repr(c), repr(x)), "substring")
        if isinstance(c, range) and isint(x):
            if isinstance(x, int):
                return x in c
            if c.step == 1:
                return self.ctx.le(lin(c.start), lin(x)) and self.ctx.lt(lin(x), lin(c.stop))
        if isinstance(c, Cls) and c.ext.get("enum"):
            return any(m is x for m in c.ext["members"].values())
        if isinstance(x, Lin) and isinstance(c, (list, tuple, range)) and 4 < len(c) <= 70000 and all(isinstance(k, int) for k in c):
            return self.inset(x, frozenset(c))
        for y in self.iterate(c):
            if self.truth(self.eq(y, x)):
                return True
        return False

    def inset(self, x, s):
        """membership of an abstract integer in a constant set: recorded as a value-set fact"""
        ctx = self.ctx
        l = ctx.norm(lin(x))
        if not l.t:
            return l.c in s
        lo, hi = ctx.range(l)
        s2 = frozenset(v for v in s if (lo is None or v >= lo) and (hi is None or v <= hi))
        if not s2:
            return False
        if lo is not None and hi is not None and len(s2) == hi - lo + 1:
            return True
        if len(s2) == 1:
            return ctx.eq0(lsub(l, next(iter(s2))))
        return ctx.opaque(("inset", l, s2), "%s in value set" % show_lin(l))

    # ------------------------------------------------------------------ binary operators
    def binop(self, op, a, b):
        I, ctx = self.I, self.ctx
        if isinstance(a, Top) or isinstance(b, Top):
            if op == "%" and isinstance(a, (str, SStr)):
                return SStr((("top", "format"),))
            if op == "+" and isinstance(a, (str, SStr)) and isinstance(b, Top):
                return self.sjoin([a, SStr((("top", b.why),))])
            return Top("op " + op)
        d = DUNDER[op]
        if isinstance(a, Obj):
            m = a.cls.find("__%s__" % d)
            if m is not None:
                r = I.call(I.bind(m, a), [b], {})
                if r is not NotImplemented:
                    return r
        if isinstance(b, Obj):
            m = b.cls.find("__r%s__" % d)
            if m is not None:
                r = I.call(I.bind(m, b), [a], {})
                if r is not NotImplemented:
                    return r
        if isinstance(a, Cls) and isinstance(b, (int, Lin)) and op == "*" and a.ext.get("ctype"):
            return I.models.ct.array_type(a, b)
        if isinstance(b, Cls) and isinstance(a, (int, Lin)) and op == "*" and b.ext.get("ctype"):
            return I.models.ct.array_type(b, a)
        if isinstance(a, Cls) or isinstance(b, Cls):
            if op == "|":
                return (a, b)
        a, b = self.unwrap(a), self.unwrap(b)
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            if op == "**" and isinstance(b, int) and abs(b) > 4096:
                return Top("pow")
            if op == "<<" and isinstance(b, int) and b > 1 << 16:
                return Top("shift")
            return I.host(HOSTBIN[op], a, b)
        if isint(a) and isint(b):
            if op == "+":
                return pyint(ctx.norm(ladd(lin(a), lin(b))))
            if op == "-":
                return pyint(ctx.norm(lsub(lin(a), lin(b))))
            if op in ("*", "&", "|", "^", "<<", ">>", "//", "%"):
                if op in ("//", "%") and isinstance(b, int) and b == 0:
                    I.throw("ZeroDivisionError", "division by zero")
                if op in ("//", "%") and isinstance(b, Lin) and ctx.eq0(b):
                    I.throw("ZeroDivisionError", "division by zero")
                if op == "<<" and isinstance(b, Lin):
                    return Top("shift")
                if op == "//" and isinstance(b, int) and b > 0 and isinstance(a, Lin):
                    return self.floordiv(a, b)
                if op == "%" and isinstance(b, int) and b > 0 and isinstance(a, Lin):
                    r = ctx.iop(op, a, b)
                    if isinstance(r, Lin) and len(r.t) == 1 and r.t[0][0][0] == "op" and r.t[0][0][1] == "%":
                        q = self.floordiv(a, b)
                        if not isinstance(q, Top):
                            return pyint(ctx.norm(lsub(lin(a), lmul(lin(q), b))))
                    return r
                return ctx.iop(op, a, b)
            return Top("int " + op)
        if isinstance(a, (int, float, Lin)) and isinstance(b, (int, float, Lin)):
            return Top("float " + op)
        if op == "+" and (isinstance(a, BList) or isinstance(b, BList)):
            for x in (a, b):
                if self.type_of(x).name not in ("list", "tuple"):
                    I = self.I
                    I.throw("TypeError", "can only concatenate list (not '%s') to list" % self.type_of(x).name)
            return BList(ctx.cat([self.tobytes(a), self.tobytes(b)]), self.type_of(a).name)
        if isinstance(a, BYTESY) and isinstance(b, BYTESY) and op == "+":
            v = ctx.cat([self.bval(a), self.bval(b)])
            return BArr(v) if isinstance(a, BArr) else v
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if isint(y):
                    if isinstance(x, (bytes, SBytes, BArr)):
                        v = self.repeat(self.bval(x), y)
                        return same_kind(x, v) if isinstance(x, BArr) else v
                    if isinstance(x, (list, tuple, str)):
                        n = y if isinstance(y, int) else ctx.concretize(lin(y), 8)
                        if n is None:
                            if isinstance(x, str):
                                return SStr((("top", "repeat"),))
                            raise Unsupported("symbolic repetition")
                        if n * max(len(x), 1) > 200000:
                            raise Cut("huge repetition")
                        return x * n
        if op == "+":
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return self.sjoin([a, b])
            if isinstance(a, list) and isinstance(b, list):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, SymSeq) or isinstance(b, SymSeq):
                na = a.n if isinstance(a, SymSeq) else len(a)
                nb = b.n if isinstance(b, SymSeq) else len(b)
                rep = a.rep if isinstance(a, SymSeq) else b.rep
                return SymSeq(pyint(ladd(lin(na), lin(nb))), rep)
            if isinstance(a, Deque) and isinstance(b, Deque):
                return Deque(a.v + b.v)
        if op == "%":
            if isinstance(a, (str, SStr)):
                return self.percent(a, b)
            if isinstance(a, (bytes, SBytes, BArr)):
                return self.bpercent(a, b)
            if isinstance(a, (bytes,)):
                return Top("bytes %")
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and op in "|&-^":
            return I.host(HOSTBIN[op], a, b)
        if isinstance(a, dict) and isinstance(b, dict) and op == "|":
            return {**a, **b}
        self.unmodelled(a, op)
        self.unmodelled(b, op)
        I.throw("TypeError", "unsupported operand type(s) for %s: '%s' and '%s'" % (op, self.type_of(a).name, self.type_of(b).name))

    def floordiv(self, a, b):
        """a // b for constant b: introduce the quotient q with b*q <= a < b*q + b"""
        ctx = self.ctx
        a = ctx.norm(lin(a))
        r = ctx.iop("//", a, b)
        if not (isinstance(r, Lin) and len(r.t) == 1 and r.t[0][0][0] == "op"):
            return r
        q = latom(("quot", a, b))
        key = ("quotdef", a, b)
        if key not in ctx.facts:
            ctx.facts[key] = True
            lo, hi = ctx.range(a)
            ctx.bounds[q.t[0][0]] = (None if lo is None else lo // b, None if hi is None else hi // b)
            ctx.assume_le0(lsub(lmul(q, b), a))
            ctx.assume_le0(ladd(lsub(a, lmul(q, b)), -(b - 1)))
        return pyint(ctx.norm(q))

    def repeat(self, v, n):
        ctx = self.ctx
        if isinstance(v, bytes) and isinstance(n, int):
            if len(v) * n > 1 << 20:
                if v.count(0) == len(v):
                    return ctx.zeros(len(v) * n)
                raise Cut("huge repetition")
            return v * n
        if isinstance(v, bytes) and v.count(0) == len(v) and len(v):
            if ctx.le0(lin(n)):
                return b""
            return ctx.zeros(lmul(lin(n), len(v)))
        if not isinstance(n, int):
            l = lin(n)
            n = ctx.concretize(l, 8)
            if n is None:
                if isinstance(v, bytes) and v:
                    if ctx.le0(l):
                        return b""
                    at = ("rep", v, ctx.norm(l))
                    ctx.lens[at] = lmul(l, len(v))
                    return ctx.atom_bytes(at)
                raise Unsupported("symbolic repetition")
        return ctx.cat([v] * max(0, min(n, 4096)))

    # ------------------------------------------------------------------ items
    def index(self, k, n):
        """normalise an integer index for a concrete-length container"""
        if isinstance(k, Obj) and "int_value" in k.cls.ext:
            k = k.d["_value_"]
        if isinstance(k, Obj) and k.cls.find("__index__"):
            k = self.I.callm(k, "__index__")
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, Lin):
            kk = self.ctx.concretize(k, 8)
            if kk is None:
                # partition over the valid range
                for i in range(min(n, 8)):
                    if self.ctx.eq0(lsub(k, i)):
                        return i
                raise Unsupported("symbolic index")
            k = kk
        if not isinstance(k, int):
            self.I.throw("TypeError", "indices must be integers or slices")
        if k < 0:
            k += n
        if not 0 <= k < n:
            self.I.throw("IndexError", "index out of range")
        return k

    def cslice(self, s, n):
        """slice with abstract bounds over a concrete-length sequence"""
        out = []
        for x in (s.start, s.stop, s.step):
            if isinstance(x, Obj) and "int_value" in x.cls.ext:
                x = x.d["_value_"]
            if isinstance(x, Lin):
                y = self.ctx.concretize(x, 8)
                if y is None:
                    for i in range(n + 1):
                        if self.ctx.eq0(lsub(x, i)):
                            y = i
                            break
                    else:
                        if self.ctx.le0(ladd(lin(x), 1)):
                            raise Unsupported("symbolic negative slice")
                        y = n
                x = y
            if x is not None and not isinstance(x, int):
                if isinstance(x, Top):
                    raise Unsupported("unknown slice bound")
                self.I.throw("TypeError", "slice indices must be integers or None")
            out.append(x)
        return slice(*out)

    def getitem(self, o, k):
        I, ctx = self.I, self.ctx
        if isinstance(o, Obj):
            m = o.cls.find("__getitem__")
            if m is not None:
                return I.call(I.bind(m, o), [k], {})
            if "clen" in o.cls.ext:
                return I.models.ct.arr_get(o, k)
            if o.seq is not None:
                if isinstance(o.seq, dict) and k not in o.seq and o.cls.find("__missing__") is not None:
                    return I.callm(o, "__missing__", k)
                return self.getitem(o.seq, k)
            if o.cls is I.models.ct.refcls:
                return I.models.ct.ptr_get(o, k)
            self.unmodelled(o, "subscript")
            I.throw("TypeError", "'%s' object is not subscriptable" % o.cls.name)
        if isinstance(o, Top):
            return Top(o.why + "[]")
        if isinstance(o, BYTESY):
            v = self.bval(o)
            if isinstance(o, MView) and o.raw:
                raise Unsupported("indexing a memoryview of a ctypes object")
            if isinstance(k, slice):
                a, b, st = k.start, k.stop, k.step
                for x in (a, b):
                    if isinstance(x, Top):
                        raise Unsupported("unknown slice bound")
                    if x is not None and not isint(x) and not (isinstance(x, Obj) and "int_value" in x.cls.ext):
                        I.throw("TypeError", "slice indices must be integers or None")
                a, b = (x.d["_value_"] if isinstance(x, Obj) else x for x in (a, b))
                if st not in (None, 1):
                    if isinstance(v, bytes) and all(x is None or isinstance(x, int) for x in (a, b, st)):
                        return v[a:b:st]
                    return Top("bytes step slice")
                if isinstance(v, bytes) and not isinstance(a, Lin) and not isinstance(b, Lin):
                    r = v[a:b]
                else:
                    r = ctx.pyslice(v, a, b)
                if isinstance(o, BArr):
                    return same_kind(o, r)
                if isinstance(o, MView):
                    return self.mv_slice(o, v, a, b, r)
                return r
            if isinstance(k, Obj) and "int_value" in k.cls.ext:
                k = k.d["_value_"]
            if not isint(k):
                if isinstance(k, Top):
                    return Top("byte")
                I.throw("TypeError", "byte indices must be integers or slices, not " + self.type_of(k).name)
            if isinstance(v, bytes) and isinstance(k, int):
                return I.host(lambda: v[k])
            n = ctx.blen(v)
            k = lin(k)
            if ctx.le0(ladd(k, 1)):
                k = ladd(k, n)
                if ctx.le0(ladd(k, 1)):
                    I.throw("IndexError", "index out of range")
            elif not ctx.lt(k, n):
                I.throw("IndexError", "index out of range")
            return ctx.dec(ctx.bslice(v, k, ladd(k, 1)))
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, slice):
                return o[self.cslice(k, len(o))]
            if isinstance(k, Top):
                return Top("item")
            return o[self.index(k, len(o))]
        if isinstance(o, Deque):
            return o.v[self.index(k, len(o.v))]
        if isinstance(o, dict):
            if isinstance(k, Top):
                return Top("dict item")
            k = self.dkey(o, self.I.hkey(k))
            if k in o:
                return o[k]
            if isinstance(k, Obj) and "int_value" in k.cls.ext and k.d["_value_"] in o:
                return o[k.d["_value_"]]
            I.throw("KeyError", k)
        if isinstance(o, SStr):
            if isinstance(k, slice) and len(o.parts) == 1 and not isinstance(o.parts[0], str) and o.parts[0][0] == "decode" and o.parts[0][2] in ("ascii", "latin-1"):
                return SStr((("decode", ctx.pyslice(o.parts[0][1], k.start, k.stop), o.parts[0][2]),))
            return SStr((("top", "slice"),))
        if isinstance(o, Cls):
            m = (o.meta or self.TYPE).find("__getitem__")
            if m is not None:
                return I.call(I.bind(m, o), [k], {})
            if o.ext.get("enum"):
                if k in o.ext["members"]:
                    return o.ext["members"][k]
                I.throw("KeyError", k)
            return o       # generic alias
        if isinstance(o, SymSeq):
            if isinstance(k, slice):
                if k.step is None and (k.start is None or isint(k.start)) and k.stop is None:
                    return SymSeq(pyint(lsub(lin(o.n), lin(k.start or 0))), o.rep, o.tup)
                return SymSeq(Top("len"), o.rep, o.tup)
            return o.rep
        if isinstance(o, (It, Gen)) or o is None or isinstance(o, (int, float, Lin, Func, set, frozenset)):
            I.throw("TypeError", "'%s' object is not subscriptable" % self.type_of(o).name)
        raise Unsupported("subscript of %r" % (o,))

    def mv_slice(self, o, v, a, b, r):
        if isinstance(o.base, BArr):
            n = self.ctx.norm(self.ctx.blen(v))
            lo = 0 if a is None else a
            if isinstance(lo, int) and lo >= 0 and (b is None or isinstance(b, int) and b >= 0) and not n.t:
                lo2 = min(lo, n.c)
                hi2 = n.c if b is None else min(b, n.c)
                hi2 = max(hi2, lo2)
                return MView(o.base, ladd(lin(o.lo), lo2), ladd(lin(o.lo), hi2))
            lo2, hi2 = self.slice_bounds(v, slice(a, b))
            return MView(o.base, ladd(lin(o.lo), lo2), ladd(lin(o.lo), hi2))
        return MView(r, Lin(0), self.ctx.blen(r))

    def unmodelled(self, o, what):
        """an operation that the model of a library class does not have (the class itself may)"""
        if isinstance(o, Obj) and o.cls.native and not o.cls.sub(self.exc["BaseException"]):
            raise Unsupported("%s of %s" % (what, o.cls.name))

    def setitem(self, o, k, v):
        I, ctx = self.I, self.ctx
        if isinstance(o, Obj):
            m = o.cls.find("__setitem__")
            if m is not None:
                I.call(I.bind(m, o), [k, v], {})
                return
            if "clen" in o.cls.ext:
                I.models.ct.arr_set(o, k, v)
                return
            if isinstance(o.seq, (list, dict)):
                return self.setitem(o.seq, k, v)
            if o.cls is I.models.ct.refcls:
                return I.models.ct.ptr_set(o, k, v)
            self.unmodelled(o, "item assignment")
            I.throw("TypeError", "'%s' object does not support item assignment" % o.cls.name)
        if isinstance(o, dict):
            o[self.dkey(o, I.hkey(k))] = v
            return
        if isinstance(o, list):
            if isinstance(k, slice):
                o[self.cslice(k, len(o))] = list(self.iterate(v))
            else:
                o[self.index(k, len(o))] = v
            return
        if isinstance(o, Deque):
            o.v[self.index(k, len(o.v))] = v
            return
        if isinstance(o, (BArr, MView)):
            base = o.base if isinstance(o, MView) else o
            if isinstance(o, MView) and o.raw:
                I.throw("NotImplementedError", "memoryview: unsupported format")
            if not isinstance(base, BArr):
                I.throw("TypeError", "cannot modify read-only memory")
            full = base.v
            off = lin(o.lo) if isinstance(o, MView) else Lin(0)
            cur = self.bval(o)
            n = ctx.blen(cur)
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported("step slice store")
                a, b = self.slice_bounds(cur, k)
                nv = self.tobytes(v, strict=False)
                if isinstance(o, MView) and not ctx.eq0(lsub(ctx.blen(nv), lsub(b, a))):
                    I.throw("ValueError", "memoryview assignment: lvalue and rvalue have different structures")
            else:
                if isinstance(v, Top):
                    raise Unsupported("unknown byte store")
                if not isint(k):
                    I.throw("TypeError", "indices must be integers")
                a = lin(k)
                if ctx.le0(ladd(a, 1)):
                    a = ladd(a, n)
                    if ctx.le0(ladd(a, 1)):
                        I.throw("IndexError", "bytearray index out of range")
                elif not ctx.lt(a, n):
                    I.throw("IndexError", "bytearray index out of range")
                b = ladd(a, 1)
                nv = self.byte(v)
            a, b = ladd(a, off), ladd(b, off)
            base.v = ctx.cat([ctx.bslice(full, Lin(0), a), nv, ctx.bslice(full, b, ctx.blen(full))])
            return
        if isinstance(o, Top):
            return
        I.throw("TypeError", "'%s' object does not support item assignment" % self.type_of(o).name)

    def slice_bounds(self, v, k):
        ctx = self.ctx
        n = ctx.norm(ctx.blen(v))

        def cl(x, d):
            if x is None:
                return d
            x = lin(x)
            if ctx.le0(ladd(x, 1)):
                x = ladd(x, n)
                return Lin(0) if ctx.le0(ladd(x, 1)) else x
            return x if ctx.le(x, n) else n
        a, b = cl(k.start, Lin(0)), cl(k.stop, n)
        if a != b and ctx.known_le0(lsub(a, b)) is not True and ctx.lt(b, a):
            b = a
        return a, b

    def byte(self, v):
        """one byte from an int value"""
        ctx = self.ctx
        v = self.unwrap(v)
        if isinstance(v, Obj) and v.cls.find("__index__") is not None:
            v = self.I.callm(v, "__index__")
        if not isint(v):
            if isinstance(v, Top):
                raise Unsupported("unknown byte")
            self.I.throw("TypeError", "'%s' object cannot be interpreted as an integer" % self.type_of(v).name)
        if isinstance(v, int):
            if not 0 <= v < 256:
                self.I.throw("ValueError", "byte must be in range(0, 256)")
            return bytes([v])
        if ctx.le0(ladd(lin(v), 1)) or not ctx.le(lin(v), 255):
            self.I.throw("ValueError", "byte must be in range(0, 256)")
        return ctx.le_bytes(lin(v), 1)

    def delitem(self, o, k):
        I = self.I
        if isinstance(o, dict):
            k = self.dkey(o, I.hkey(k))
            if k not in o:
                I.throw("KeyError", k)
            del o[k]
        elif isinstance(o, list):
            if isinstance(k, slice):
                del o[self.cslice(k, len(o))]
            else:
                del o[self.index(k, len(o))]
        elif isinstance(o, Deque):
            del o.v[self.index(k, len(o.v))]
        elif isinstance(o, BArr):
            if not isinstance(k, slice):
                k = slice(k, ladd(lin(k), 1))
            a, b = self.slice_bounds(o.v, k)
            o.v = self.ctx.cat([self.ctx.bslice(o.v, Lin(0), a), self.ctx.bslice(o.v, b, self.ctx.blen(o.v))])
        elif isinstance(o, Obj) and o.cls.find("__delitem__") is not None:
            I.callm(o, "__delitem__", k)
        elif isinstance(o, Obj) and isinstance(o.seq, (list, dict)):
            self.delitem(o.seq, k)
        elif isinstance(o, Top):
            pass
        else:
            raise Unsupported("del item")

    def len(self, v):
        I = self.I
        if isinstance(v, (bytes, str, list, tuple, dict, set, frozenset, range)):
            return len(v)
        if isinstance(v, (SBytes, BArr, MView)):
            return pyint(self.ctx.norm(self.ctx.blen(self.bval(v))))
        if isinstance(v, Deque):
            return len(v.v)
        if isinstance(v, SymSeq):
            return v.n
        if isinstance(v, Top):
            return Top("len")
        if isinstance(v, SStr):
            n = Lin(0)
            for p in v.parts:
                if isinstance(p, str):
                    n = ladd(n, len(p))
                elif p[0] == "hex":
                    n = ladd(n, lmul(self.ctx.blen(p[1]), 2))
                elif p[0] == "decode" and p[2] in ("ascii", "latin-1"):
                    n = ladd(n, self.ctx.blen(p[1]))
                else:
                    return Top("len(str)")
            return pyint(self.ctx.norm(n))
        if isinstance(v, Obj):
            m = v.cls.find("__len__")
            if m is not None:
                return I.call(I.bind(m, v), [], {})
            if "clen" in v.cls.ext:
                return v.cls.ext["clen"]
            if v.seq is not None:
                return self.len(v.seq)
        if isinstance(v, Cls) and v.ext.get("enum"):
            return len(v.ext["members"])
        self.unmodelled(v, "len()")
        I.throw("TypeError", "object of type '%s' has no len()" % self.type_of(v).name)

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        I, ctx = self.I, self.ctx
        if isinstance(v, (list,)):
            i = 0
            while i < len(v):
                yield v[i]
                i += 1
            return
        if isinstance(v, (tuple, set, frozenset, range, str)):
            yield from v
            return
        if isinstance(v, dict):
            n = len(v)
            for k in list(v):
                if len(v) != n:
                    I.throw("RuntimeError", "dictionary changed size during iteration")
                yield k
            return
        if isinstance(v, bytes):
            yield from v
            return
        if isinstance(v, (SBytes, BArr, MView)):
            i = 0
            forked = 0
            while True:
                b = self.bval(v)
                n0 = ctx.exec_forks
                if not ctx.lt(Lin(i), ctx.blen(b)):
                    return
                yield ctx.dec(ctx.bslice(b, Lin(i), Lin(i + 1)))
                if ctx.exec_forks != n0:
                    forked += 1
                    if forked > 64:
                        raise Cut("loop unrolling bound")
                i += 1
                if i > 70000:
                    raise Cut("loop bound")
        if isinstance(v, Deque):
            yield from list(v.v)
            return
        if isinstance(v, It):
            while True:
                try:
                    x = next(v.it)
                except StopIteration:
                    return
                yield x
        if isinstance(v, Gen):
            while True:
                m = v.resume("send", None)
                if m[0] == "end":
                    return
                yield m[1]
        if isinstance(v, SymSeq):
            I.event("symiter")
            yield v.rep
            yield v.rep
            return
        if isinstance(v, Obj):
            m = v.cls.find("__iter__")
            if m is not None:
                yield from self.iterate(I.call(I.bind(m, v), [], {}))
                return
            if v.cls.find("__next__") is not None:
                while True:
                    try:
                        x = I.callm(v, "__next__")
                    except PyExc as e:
                        if e.obj.cls.sub(self.exc["StopIteration"]):
                            return
                        raise
                    yield x
            if "clen" in v.cls.ext:
                n = v.cls.ext["clen"]
                i = 0
                while True:
                    n0 = ctx.exec_forks
                    if not (i < n if isinstance(n, int) else ctx.lt(Lin(i), lin(n))):
                        return
                    yield I.models.ct.arr_get(v, i)
                    i += 1
                    if ctx.exec_forks != n0 and i > max(ctx.K, self.I.env.get("arrK", 0)):
                        raise Cut("loop unrolling bound")
            if v.seq is not None:
                yield from self.iterate(v.seq)
                return
            if v.ext and "range" in v.ext:
                a, b, s = v.ext["range"]
                i = lin(a)
                k = 0
                while True:
                    n0 = ctx.exec_forks
                    if not ctx.lt(i, lin(b)):
                        return
                    yield pyint(ctx.norm(i))
                    i = ladd(i, s)
                    if ctx.exec_forks != n0:
                        k += 1
                        if k > ctx.K:
                            raise Cut("loop unrolling bound")
            if v.cls.find("__getitem__") is not None:
                i = 0
                while True:
                    try:
                        x = I.callm(v, "__getitem__", i)
                    except PyExc as e:
                        if e.obj.cls.sub(self.exc["IndexError"]):
                            return
                        raise
                    yield x
                    i += 1
        if isinstance(v, Cls):
            if v.ext.get("enum"):
                yield from list(v.ext["members"].values())
                return
            m = (v.meta or self.TYPE).find("__iter__")
            if m is not None:
                yield from self.iterate(I.call(I.bind(m, v), [], {}))
                return
        if isinstance(v, SStr):
            if len(v.parts) == 1 and not isinstance(v.parts[0], str) and v.parts[0][0] == "decode" and v.parts[0][2] in ("ascii", "latin-1"):
                b = v.parts[0][1]
                n = ctx.norm(ctx.blen(b))
                if not n.t:
                    for i in range(n.c):
                        yield SStr((("decode", ctx.bslice(b, Lin(i), Lin(i + 1)), v.parts[0][2]),))
                    return
            raise Unsupported("iterate str")
        if isinstance(v, Top):
            raise Unsupported("iteration over unknown value (%s)" % v.why)
        self.unmodelled(v, "iteration")
        I.throw("TypeError", "'%s' object is not iterable" % self.type_of(v).name)

    # ------------------------------------------------------------------ strings
    def sjoin(self, parts):
        out = []
        for p in parts:
            for q in (p.parts if isinstance(p, SStr) else (p,)):
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != "":
                    out.append(q)
        if not out:
            return ""
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return SStr(out)

    def str(self, v):
        I = self.I
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, Obj):
            m = v.cls.find("__str__")
            if m is not None:
                return I.call(I.bind(m, v), [], {})
            if v.cls.sub(self.exc["BaseException"]):
                a = v.d.get("args", ())
                if not a:
                    return ""
                return self.str(a[0]) if len(a) == 1 else self.repr(a)
            if "enum_str" in v.cls.ext:
                return "%s.%s" % (v.cls.name, v.d["_name_"])
        return self.repr(v)

    def repr(self, v):
        I = self.I
        if isinstance(v, Lin):
            return SStr((("int", v),))
        if isinstance(v, SBytes):
            return SStr((("repr", v),))
        if isinstance(v, BArr):
            return self.sjoin(["bytearray(", self.repr(v.v), ")"])
        if isinstance(v, MView):
            return "<memory>"
        if isinstance(v, SStr):
            return self.sjoin(["'", v, "'"])
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return repr(v)
        if isinstance(v, (list, tuple, Deque, set, frozenset)):
            vs = list(v.v if isinstance(v, Deque) else v)
            out = ["[" if isinstance(v, list) else "(" if isinstance(v, tuple) else "{"]
            for i, x in enumerate(vs):
                if i:
                    out.append(", ")
                out.append(self.repr(x))
            if isinstance(v, tuple) and len(vs) == 1:
                out.append(",")
            out.append("]" if isinstance(v, list) else ")" if isinstance(v, tuple) else "}")
            return self.sjoin(out)
        if isinstance(v, dict):
            out = ["{"]
            for k, x in v.items():
                out += [self.repr(k), ": ", self.repr(x), ", "]
            return self.sjoin(out + ["}"])
        if isinstance(v, Obj):
            m = v.cls.find("__repr__")
            if m is not None:
                return I.call(I.bind(m, v), [], {})
            if v.cls.sub(self.exc["BaseException"]):
                a = v.d.get("args", ())
                return self.sjoin([v.cls.name, self.repr(a)])
            if "enum" in v.cls.ext:
                return self.sjoin(["<%s.%s: " % (v.cls.name, v.d["_name_"]), self.repr(v.d["_value_"]), ">"])
            if v.seq is not None and isinstance(v.seq, tuple) and "nt" in v.cls.ext:
                out = [v.cls.name, "("]
                for f, x in zip(v.cls.ext["nt"], v.seq):
                    out += [f, "=", self.repr(x), ", "]
                return self.sjoin(out + [")"])
            if "dc" in v.cls.ext:
                out = [v.cls.name, "("]
                for f in v.cls.ext["dc"]:
                    out += [f, "=", self.repr(v.d.get(f)), ", "]
                return self.sjoin(out + [")"])
            return "<%s object>" % v.cls.name
        if isinstance(v, Cls):
            return "<class '%s'>" % v.name
        if isinstance(v, Top):
            return SStr((("top", v.why),))
        if isinstance(v, slice) or v is Ellipsis:
            return repr(v)
        return "<%s>" % self.type_of(v).name

    def format(self, v, spec):
        I = self.I
        if isinstance(spec, SStr):
            return SStr((("top", "spec"),))
        if isinstance(v, Obj):
            m = v.cls.find("__format__")
            if isinstance(m, Func):
                return I.call(m, [v, spec], {})
            if "int_value" in v.cls.ext:
                v = v.d["_value_"]
            else:
                if spec and "enum" not in v.cls.ext and v.cls.find("__format__") is None and not v.cls.sub(self.exc["BaseException"]):
                    I.throw("TypeError", "unsupported format string passed to %s.__format__" % v.cls.name)
                v = self.str(v)
        if v is None or isinstance(v, (bytes, SBytes, list, tuple, dict, BArr, Cls, Func, set)):
            if spec:
                I.throw("TypeError", "unsupported format string passed to %s.__format__" % self.type_of(v).name)
            return self.str(v)
        if isinstance(v, (bool, int, float, str)):
            return I.host(format, v, spec)
        if isinstance(v, SStr):
            if spec and spec[-1] in "dxXobcneEfFgG%":
                I.throw("ValueError", "Unknown format code '%s' for object of type 'str'" % spec[-1])
            return v if not spec or spec == "s" else SStr((("top", "padded"),) + v.parts)
        if isinstance(v, Lin):
            if spec and spec[-1] == "s":
                I.throw("ValueError", "Unknown format code 's' for object of type 'int'")
            return SStr((("int", v),))
        if isinstance(v, Top):
            return SStr((("top", v.why),))
        return self.str(v)

    def fmt_str(self, s, args, kw):
        """str.format"""
        if isinstance(s, SStr):
            return SStr((("top", "format"),))
        out = []
        auto = 0
        for lit, field, spec, conv in self.I.host(lambda: list(string.Formatter().parse(s))):
            out.append(lit)
            if field is None:
                continue
            m = _re.match(r"[^.\[]*", field)
            first = m.group(0)
            rest = field[m.end():]
            if first == "":
                if auto >= len(args):
                    self.I.throw("IndexError", "Replacement index %d out of range for positional args tuple" % auto)
                v = args[auto]
                auto += 1
            elif first.isdigit():
                if int(first) >= len(args):
                    self.I.throw("IndexError", "Replacement index out of range for positional args tuple")
                v = args[int(first)]
            else:
                if first not in kw:
                    self.I.throw("KeyError", first)
                v = kw[first]
            for part in _re.findall(r"\.([^.\[]+)|\[([^\]]+)\]", rest):
                if part[0]:
                    v = self.I.getattr(v, part[0])
                else:
                    v = self.getitem(v, int(part[1]) if part[1].isdigit() else part[1])
            if conv == "r":
                v = self.repr(v)
            elif conv == "s":
                v = self.str(v)
            if spec and "{" in spec:
                spec = self.fmt_str(spec, args[auto:], kw)
                auto += 1
            out.append(self.format(v, spec or ""))
        return self.sjoin(out)

    def percent(self, s, b):
        if isinstance(s, SStr):
            return SStr((("top", "format"),))
        I = self.I
        args = b if isinstance(b, tuple) else (b,)
        out = []
        i = 0
        pos = 0
        for m in _re.finditer(r"%(\((\w+)\))?([-+ #0]*)(\*|\d*)(?:\.(\d+))?([diouxXeEfFgGcrsa%])", s):
            out.append(s[pos:m.start()])
            pos = m.end()
            c = m.group(6)
            if c == "%":
                out.append("%")
                continue
            if m.group(1):
                v = self.getitem(b, m.group(2))
            else:
                if i >= len(args):
                    I.throw("TypeError", "not enough arguments for format string")
                v = args[i]
                i += 1
            if c in "diouxXeEfFgG":
                v = self.unwrap(v)
                if isinstance(v, (int, float)):
                    out.append(I.host(lambda: ("%" + m.group(3) + m.group(4) + ("." + m.group(5) if m.group(5) else "") + c) % v))
                elif isinstance(v, Lin):
                    out.append(SStr((("int", v),)))
                elif isinstance(v, Top):
                    out.append(SStr((("top", v.why),)))
                else:
                    I.throw("TypeError", "%%%s format: a real number is required, not %s" % (c, self.type_of(v).name))
            elif c == "s":
                x = self.str(v)
                out.append(I.host(lambda: ("%" + m.group(3) + m.group(4) + "s") % x) if isinstance(x, str) else x)
            else:
                out.append(self.repr(v))
        if not isinstance(b, dict) and i < len(args) and isinstance(b, tuple):
            I.throw("TypeError", "not all arguments converted during string formatting")
        if not isinstance(b, (tuple, dict)) and i == 0 and not isinstance(b, Obj):
            I.throw("TypeError", "not all arguments converted during string formatting")
        out.append(s[pos:])
        return self.sjoin(out)

    def bpercent(self, s, b):
        """bytes % values, for a known format made of %b, %s, %c, %d and %%"""
        I = self.I
        mut = isinstance(s, BArr)
        s = self.bval(s)
        if not isinstance(s, bytes):
            raise Unsupported("format built from unknown bytes")
        args = b if isinstance(b, tuple) else (b,)
        out, i, pos = [], 0, 0
        for m in _re.finditer(rb"%(.)", s, _re.S):
            if m.start() < pos:
                continue
            out.append(s[pos:m.start()])
            pos = m.end()
            c = m.group(1)
            if c == b"%":
                out.append(b"%")
                continue
            if c not in b"bscdix":
                raise Unsupported("bytes format")
            if i >= len(args):
                I.throw("TypeError", "not enough arguments for format string")
            v = args[i]
            i += 1
            if isinstance(v, Top):
                raise Unsupported("unknown bytes (%s)" % v.why)
            if c in b"bs":
                x = self.bufferlike(v)
                if x is None and isinstance(v, Obj) and v.cls.find("__bytes__") is not None:
                    x = self.bval(I.callm(v, "__bytes__"))
                if x is None:
                    I.throw("TypeError", "%%b requires a bytes-like object, or an object that implements __bytes__, not '%s'" % self.type_of(v).name)
                out.append(x)
            elif c == b"c":
                if isint(self.unwrap(v)):
                    out.append(self.byte(self.unwrap(v)))
                elif isinstance(v, BYTESY):
                    out.append(self.bval(v))
                else:
                    I.throw("TypeError", "%c requires an integer in range(256) or a single byte")
            else:
                v = self.unwrap(v)
                if not isinstance(v, int):
                    raise Unsupported("bytes format of a number")
                out.append(b"%" + c)
                out[-1] = out[-1] % v
        if i < len(args) and not isinstance(b, dict):
            I.throw("TypeError", "not all arguments converted during bytes formatting")
        out.append(s[pos:])
        r = self.ctx.cat(out)
        return BArr(r) if mut else r

    # ------------------------------------------------------------------ bytes conversion
    def tobytes(self, v, strict=False):
        """bytes-like or iterable-of-int -> abstract bytes value.  strict: buffer protocol or iterable, as bytearray.extend"""
        I, ctx = self.I, self.ctx
        if isinstance(v, BYTESY):
            return self.bval(v)
        if isinstance(v, Top):
            raise Unsupported("unknown bytes (%s)" % v.why)
        if isinstance(v, Obj) and v.cls.ext.get("ctype"):
            return I.models.ct.raw(v)
        if isinstance(v, (str, SStr)):
            I.throw("TypeError", "string argument without an encoding")
        if v is None or isinstance(v, (float, Cls, Func)):
            I.throw("TypeError", "cannot convert '%s' object to bytes" % self.type_of(v).name)
        if isint(v):
            I.throw("TypeError", "a bytes-like object is required, not 'int'")
        if isinstance(v, It) or isinstance(v, (list, tuple, Gen, range, Deque)) or isinstance(v, Obj):
            if isinstance(v, list) and len(v) > 4 and all(isinstance(x, int) and not isinstance(x, bool) for x in v):
                return I.host(lambda: bytes(v))
            return ctx.cat([self.byte(x) for x in self.iterate(v)])
        raise Unsupported("bytes of %r" % (v,))

    def bufferlike(self, v):
        """value as buffer or None"""
        if isinstance(v, BYTESY):
            return None if isinstance(v, BList) else self.bval(v)
        if isinstance(v, Obj) and v.cls.ext.get("ctype"):
            return self.I.models.ct.raw(v)
        return None

    def ctor_bytes(self, a, k):
        I, ctx = self.I, self.ctx
        if k and "source" in k:
            a = [k["source"]] + a
        if not a:
            return b""
        v = a[0]
        if isinstance(v, (str, SStr)):
            if len(a) < 2 and "encoding" not in k:
                I.throw("TypeError", "string argument without an encoding")
            return self.encode(v, a[1] if len(a) > 1 else k["encoding"])
        if isinstance(v, Top):
            return Top("bytes(%s)" % v.why)
        if isinstance(v, Obj):
            m = v.cls.find("__bytes__")
            if m is not None:
                return I.call(I.bind(m, v), [], {})
            v = self.unwrap(v)
        if isint(v):
            if isinstance(v, int):
                if v < 0:
                    I.throw("ValueError", "negative count")
                return ctx.zeros(v)
            if ctx.le0(ladd(lin(v), 1)):
                I.throw("ValueError", "negative count")
            return ctx.zeros(lin(v))
        return self.tobytes(v)

    def ctor_bytearray(self, a, k):
        r = self.ctor_bytes(a, k)
        return r if isinstance(r, Top) else BArr(r)

    def ctor_memoryview(self, a, k):
        v = a[0] if a else k["object"]
        if isinstance(v, Top):
            return v
        if isinstance(v, (bytes, SBytes)):
            return MView(v, Lin(0), self.ctx.blen(v))
        if isinstance(v, BArr):
            return MView(v, Lin(0), self.ctx.blen(v.v))
        if isinstance(v, MView):
            return v
        if isinstance(v, Obj) and isinstance(v.mem, BArr) and v.cls.ext.get("ctype") and v.cls.ext.get("size") is not None:
            return MView(v.mem, lin(v.off), ladd(lin(v.off), v.cls.ext["size"]), True)
        b = self.bufferlike(v)
        if b is None:
            self.I.throw("TypeError", "memoryview: a bytes-like object is required, not '%s'" % self.type_of(v).name)
        return MView(b, Lin(0), self.ctx.blen(b))

    def ctor_int(self, a, k):
        I, ctx = self.I, self.ctx
        if not a:
            return 0
        v = self.unwrap(a[0])
        base = a[1] if len(a) > 1 else k.get("base")
        if isinstance(v, bool):
            return int(v)
        if isint(v) and base is None:
            return v
        if isinstance(v, (float, str, bytes)):
            return I.host(lambda: int(v) if base is None else int(v, base))
        if isinstance(v, SStr) and len(v.parts) == 1:
            p = v.parts[0]
            if p[0] == "int":
                return p[1]
            if p[0] == "hex" and base == 16:
                return ctx.dec_be(p[1])
        if isinstance(v, Obj):
            for m in ("__int__", "__index__"):
                if v.cls.find(m) is not None:
                    return I.callm(v, m)
            I.throw("TypeError", "int() argument must be a string, a bytes-like object or a real number, not '%s'" % v.cls.name)
        if isinstance(v, (SStr, Top, BArr, SBytes)):
            return Top("int()")
        I.throw("TypeError", "int() argument must be a string, a bytes-like object or a real number, not '%s'" % self.type_of(v).name)

    def ctor_bool(self, a, k):
        if not a:
            return False
        if isinstance(a[0], Top):
            return a[0]
        return self.truth(a[0])

    def ctor_float(self, a, k):
        if not a:
            return 0.0
        if isinstance(a[0], (int, float, str)):
            return self.I.host(float, a[0])
        return Top("float")

    def ctor_complex(self, a, k):
        return Top("complex")

    def ctor_str(self, a, k):
        if not a:
            return ""
        if len(a) > 1 or "encoding" in k:
            return self.decode(self.tobytes(a[0]), a[1] if len(a) > 1 else k["encoding"])
        return self.str(a[0])

    def ctor_list(self, a, k):
        if a and isinstance(a[0], SymSeq):
            return SymSeq(a[0].n, a[0].rep, False)
        if a and self.lazy(a[0]):
            return BList(self.bval(a[0]))
        return list(self.iterate(a[0])) if a else []

    def ctor_tuple(self, a, k):
        if a and isinstance(a[0], SymSeq):
            return a[0]
        if a and self.lazy(a[0]):
            return BList(self.bval(a[0]), "tuple")
        return tuple(self.iterate(a[0])) if a else ()

    def lazy(self, v):
        """a byte string whose length is not known: its list is kept as a byte string"""
        return isinstance(v, (SBytes, BArr, MView)) and self.long(self.ctx.norm(self.ctx.blen(self.bval(v))))

    def long(self, n):
        return bool(n.t) or n.c > 4096

    def mkset(self, xs):
        r = {}
        for x in xs:
            r[self.dkey(r, self.I.hkey(x))] = None
        return set(r)

    def bag(self, kind, v):
        """what only depends on which bytes occur in an abstract byte string; None when v is something else"""
        if isinstance(v, BYTESY):
            v = self.bval(v)
            if isinstance(v, SBytes):
                return Bag(kind, v)
        return None

    def ctor_set(self, a, k):
        return (self.bag("set", a[0]) or self.mkset(self.iterate(a[0]))) if a else set()

    def ctor_frozenset(self, a, k):
        return (self.bag("set", a[0]) or frozenset(self.mkset(self.iterate(a[0])))) if a else frozenset()

    def ctor_dict(self, a, k):
        d = {}
        if a:
            if isinstance(a[0], dict) or isinstance(a[0], Obj):
                d.update(self.I.todict(a[0]))
            else:
                for p in self.iterate(a[0]):
                    kk, vv = list(self.iterate(p))
                    d[self.dkey(d, self.I.hkey(kk))] = vv
        d.update(k)
        return d

    def ctor_range(self, a, k):
        a = [self.unwrap(x) for x in a]
        for x in a:
            if isinstance(x, Top):
                return Top("range")
            if not isint(x):
                self.I.throw("TypeError", "'%s' object cannot be interpreted as an integer" % self.type_of(x).name)
        if all(isinstance(x, int) for x in a):
            return self.I.host(range, *a)
        lo, hi, st = 0, None, 1
        if len(a) == 1:
            hi = a[0]
        else:
            lo, hi = a[0], a[1]
            if len(a) > 2:
                st = a[2]
        if not isinstance(st, int) or st < 1:
            raise Unsupported("symbolic range")
        o = Obj(self.types["range"])
        o.ext = {"range": (lo, hi, st)}
        return o

    def ctor_slice(self, a, k):
        return slice(*a)

    def ctor_property(self, a, k):
        return Prop(*(a + [k[x] for x in ("fget", "fset", "fdel") if x in k]))

    def ctor_staticmethod(self, a, k):
        return SMeth(a[0])

    def ctor_classmethod(self, a, k):
        return CMeth(a[0])

    # ------------------------------------------------------------------ encode/decode
    def encode(self, s, enc="utf-8", errors="strict"):
        enc = enc.lower().replace("_", "-")
        if isinstance(s, str):
            return self.I.host(s.encode, enc, errors)
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out.append(self.I.host(p.encode, enc))
            elif p[0] == "decode":
                e2 = {"utf8": "utf-8", "latin1": "latin-1", "iso-8859-1": "latin-1", "us-ascii": "ascii"}.get(enc, enc)
                if e2 != p[2] and not (p[2] == "ascii" and e2 in ("utf-8", "latin-1")):
                    if not self.ctx.opaque(("bpred", "isascii", p[1]), "%s.isascii()" % show(p[1])):
                        if errors != "strict" and errors != "surrogateescape":
                            return Top("encode " + errors)
                        if e2 == "utf-8":
                            out.append(self.ctx.atom_bytes(("fn", "utf8", p[1], p[2])))
                            continue
                        if p[2] == "latin-1":
                            self.I.throw("UnicodeEncodeError", "ordinal not in range(128)")
                        return Top("encode")
                out.append(p[1])
            elif p[0] == "hex" and isinstance(p[1], SBytes):
                out.append(self.ctx.atom_bytes(("hexascii", self.ctx.renorm(p[1]))))
            else:
                return Top("encode")
        return self.ctx.cat(out)

    def decode(self, b, enc="utf-8", errors="strict"):
        enc = {"utf8": "utf-8", "latin1": "latin-1", "iso-8859-1": "latin-1", "us-ascii": "ascii"}.get(enc.lower(), enc.lower())
        if isinstance(b, bytes):
            return self.I.host(lambda: b.decode(enc, errors))
        if enc in ("utf-8", "ascii"):
            if errors == "strict":
                if not self.ctx.opaque(("decodable", enc, b), "%s decodes as %s" % (show(b), enc)):
                    self.I.throw("UnicodeDecodeError", "invalid data")
            elif errors != "strict":
                return SStr((("top", "decode " + errors),))
            return SStr((("decode", b, enc),))
        if enc == "latin-1":
            return SStr((("decode", b, enc),))
        return Top("decode")

    # ------------------------------------------------------------------ attribute tables of host values
    def cls_attr(self, o, name):
        """class-level natives of builtin types (bytes.fromhex, int.from_bytes, dict.fromkeys, unbound methods)"""
        n = o.name
        base = o
        if not o.native:
            return None
        if name == "fromhex" and n in ("bytes", "bytearray"):
            def fh(I, a, k):
                if isinstance(a[0], str):
                    r = I.host(bytes.fromhex, a[0])
                elif isinstance(a[0], SStr) and self.hexval(a[0].parts) is not None:
                    r = self.hexval(a[0].parts)
                else:
                    return Top("fromhex")
                return BArr(r) if n == "bytearray" else r
            return Nat(name, fh)
        if n == "int" and name == "from_bytes":
            return Nat(name, lambda I, a, k: self.int_from_bytes(*a, **k))
        if n == "dict" and name == "fromkeys":
            return Nat(name, lambda I, a, k: self.ctor_dict([[(x, a[1] if len(a) > 1 else None) for x in self.iterate(a[0])]], {}))
        if n in ("str", "bytes") and name == "maketrans":
            return Nat(name, lambda I, a, k: I.host(getattr(str if n == "str" else bytes, "maketrans"), *a))
        if n in self.types and n not in ("function", "module"):
            def unbound(I, a, k):
                return I.call(self.host_attr(a[0], name), a[1:], k)
            return Nat(n + "." + name, unbound)
        return None

    def int_from_bytes(self, b, byteorder="big", *, signed=False):
        v = self.bufferlike(b)
        if v is None:
            if isinstance(b, Top):
                return b
            v = self.tobytes(b)
        if byteorder not in ("little", "big"):
            self.I.throw("ValueError", "byteorder must be either 'little' or 'big'")
        signed = bool(signed)
        return self.ctx.dec(v, signed) if byteorder == "little" else self.ctx.dec_be(v, signed)

    def int_to_bytes(self, x, length=1, byteorder="big", *, signed=False):
        I, ctx = self.I, self.ctx
        if isinstance(length, Lin):
            length = ctx.concretize(length, 16)
            if length is None:
                raise Unsupported("symbolic to_bytes length")
        if isinstance(length, Top) or isinstance(byteorder, Top):
            return Top("to_bytes")
        if isinstance(x, int):
            return I.host(lambda: int(x).to_bytes(length, byteorder, signed=bool(signed)))
        x = lin(x)
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
        if ctx.le0(ladd(lsub(x, lo), 1)) or not ctx.le(x, hi):
            I.throw("OverflowError", "int too big to convert")
        return ctx.le_bytes(x, length) if byteorder == "little" else ctx.be_bytes(x, length)

    def host_attr(self, o, name):
        I = self.I
        if isinstance(o, (bytes, SBytes, BArr, MView)):
            r = self.bytes_attr(o, name)
        elif isinstance(o, (str, SStr)):
            r = self.str_attr(o, name)
        elif isinstance(o, (list, Deque)):
            r = self.list_attr(o, name)
        elif isinstance(o, dict):
            r = self.dict_attr(o, name)
        elif isinstance(o, (set, frozenset)):
            r = self.set_attr(o, name)
        elif isinstance(o, tuple):
            r = self.tuple_attr(o, name)
        elif isinstance(o, (bool, int, Lin)):
            r = self.int_attr(o, name)
        elif isinstance(o, float):
            r = Nat(name, lambda I, a, k: I.host(getattr(o, name), *a)) if hasattr(o, name) and callable(getattr(o, name)) else getattr(o, name, None)
        elif isinstance(o, Gen):
            r = self.gen_attr(o, name)
        elif isinstance(o, It):
            r = {"__next__": Nat("__next__", lambda I, a, k: self.b_next(o)), "__iter__": Nat("__iter__", lambda I, a, k: o)}.get(name)
        elif isinstance(o, Coro):
            r = {"close": Nat("close", lambda I, a, k: setattr(o, "done", True)),
                 "send": Nat("send", lambda I, a, k: I.throw("StopIteration", I.await_(o))),
                 "__await__": Nat("__await__", lambda I, a, k: It(iter([])))}.get(name)
        elif isinstance(o, SymSeq):
            if name in ("append", "extend"):
                r = Nat(name, lambda I, a, k: None)
            else:
                r = Top("seq." + name)
        elif isinstance(o, slice):
            r = getattr(o, name, None)
            if name in ("start", "stop", "step"):
                return r
        elif isinstance(o, range):
            if name in ("start", "stop", "step"):
                return getattr(o, name)
            r = None
        else:
            r = None
        if r is None:
            if name == "__class__":
                return self.type_of(o)
            if name in ("__len__", "__iter__", "__getitem__", "__contains__", "__eq__", "__str__", "__repr__", "__bool__", "__hash__",
                        "__add__", "__ne__", "__format__", "__lt__", "__gt__", "__le__", "__ge__", "__mul__", "__sub__"):
                r = self.generic(o, name)
            if name == "__doc__":
                return None
        if r is None:
            I.throw("AttributeError", "'%s' object has no attribute '%s'" % (self.type_of(o).name, name))
        return r

    def generic(self, o, name):
        if o is None and name not in ("__eq__", "__ne__", "__str__", "__repr__", "__bool__", "__hash__", "__format__"):
            return None
        t = {"__len__": lambda I, a, k: self.len(o), "__iter__": lambda I, a, k: It(self.iterate(o)),
             "__getitem__": lambda I, a, k: self.getitem(o, a[0]), "__contains__": lambda I, a, k: self.contains(o, a[0]),
             "__eq__": lambda I, a, k: self.eq(o, a[0]), "__str__": lambda I, a, k: self.str(o), "__repr__": lambda I, a, k: self.repr(o),
             "__bool__": lambda I, a, k: self.truth(o), "__hash__": lambda I, a, k: hash(o) if not isinstance(o, (list, dict)) else 0,
             "__add__": lambda I, a, k: self.binop("+", o, a[0]), "__mul__": lambda I, a, k: self.binop("*", o, a[0]),
             "__sub__": lambda I, a, k: self.binop("-", o, a[0]),
             "__ne__": lambda I, a, k: not self.truth(self.eq(o, a[0])), "__format__": lambda I, a, k: self.format(o, a[0]),
             "__lt__": lambda I, a, k: self.order(ast.Lt, o, a[0]), "__gt__": lambda I, a, k: self.order(ast.Gt, o, a[0]),
             "__le__": lambda I, a, k: self.order(ast.LtE, o, a[0]), "__ge__": lambda I, a, k: self.order(ast.GtE, o, a[0])}
        return Nat(name, t[name])

    def conc(self, *vs):
        """all fully concrete?"""
        for v in vs:
            if isinstance(v, (Lin, SBytes, SStr, Top, BArr, MView, Obj, SymSeq)):
                return False
            if isinstance(v, (list, tuple)) and not self.conc(*v):
                return False
        return True

    def bytes_attr(self, o, name):
        ctx = self.ctx
        I = self.I
        mut = isinstance(o, BArr)
        wrapm = (lambda v: same_kind(o, v)) if mut else (lambda v: v)

        def N(f):
            return Nat(name, lambda I, a, k: f(*a, **k))
        val = lambda: self.bval(o)
        if isinstance(o, MView):
            if name == "tobytes":
                return N(lambda *a: val())
            if name == "cast":
                def cast(fmt, *shape):
                    if fmt not in ("B", "@B") or shape:
                        raise Unsupported("memoryview.cast(%s)" % (fmt,))
                    return MView(o.base, o.lo, o.hi)
                return N(cast)
            if name in ("release", "toreadonly"):
                return N(lambda *a: o if name != "release" else None)
            if name == "nbytes":
                return pyint(ctx.norm(ctx.blen(val())))
            if o.raw and name in ("format", "itemsize", "tolist"):
                raise Unsupported("memoryview of a ctypes object")
            if name == "obj":
                return o.base
            if name == "readonly":
                return not isinstance(o.base, BArr)
            if name in ("format",):
                return "B"
            if name == "itemsize":
                return 1
            if name == "contiguous":
                return True
            if name == "tolist":
                return N(lambda: list(self.iterate(o)))
            if name == "__enter__":
                return N(lambda: o)
            if name == "__exit__":
                return N(lambda *a: None)
            if name not in ("hex",):
                return None
        if name == "join":
            def join(it):
                if isinstance(it, Top):
                    return Top("join")
                out = []
                first = True
                sep = val()
                for x in self.iterate(it):
                    b = self.bufferlike(x)
                    if b is None:
                        if isinstance(x, Top):
                            raise Unsupported("join of unknown bytes (%s)" % x.why)
                        I.throw("TypeError", "sequence item: expected a bytes-like object, %s found" % self.type_of(x).name)
                    if not first:
                        out.append(sep)
                    first = False
                    out.append(b)
                return wrapm(ctx.cat(out))
            return N(join)
        if name == "hex":
            def hx(sep=None, n=1):
                v = val()
                if isinstance(v, bytes):
                    return v.hex() if sep is None else v.hex(sep, n)
                parts = []
                for s in v.segs:
                    if s[0] == "c" and sep is None:
                        parts.append(s[1].hex())
                    else:
                        parts.append(("hex", SBytes((s,))))
                return self.sjoin(parts if sep is None else [SStr((("hex", v),))]) if all(isinstance(p, str) for p in parts) else SStr(self.sj(parts))
            return N(hx)
        if name == "decode":
            return N(lambda encoding="utf-8", errors="strict": self.decode(val(), encoding, errors))
        if name in ("startswith", "endswith"):
            def sw(p, *r):
                if r:
                    return Top(name)
                if isinstance(p, tuple):
                    return any(sw(x) for x in p)
                b = self.bufferlike(p)
                if b is None:
                    I.throw("TypeError", "startswith first arg must be bytes")
                v = val()
                n, m = ctx.blen(v), ctx.blen(b)
                if not ctx.le(m, n):
                    return False
                return ctx.beq(ctx.bslice(v, Lin(0), m) if name == "startswith" else ctx.bslice(v, lsub(n, m), n), b)
            return N(sw)
        if name in ("find", "index", "count", "rfind", "rindex"):
            def find(p, *r):
                v = val()
                q = self.bufferlike(p) if not isinstance(p, int) else bytes([p])
                if isinstance(v, bytes) and isinstance(q, bytes) and self.conc(*r):
                    return I.host(getattr(v, name), q, *r)
                if r or name == "count" or q is None:
                    return Top(name)
                p = self.find_sym(v, q)
                if p is None:
                    if name in ("index", "rindex"):
                        I.throw("ValueError", "subsection not found")
                    return -1
                return pyint(p)
            return N(find)
        if name in ("ljust", "rjust"):
            def just(w, fill=b" "):
                v = val()
                f = self.bufferlike(fill)
                n = ctx.blen(v)
                if ctx.le(lin(w), n):
                    return wrapm(v)
                pad = lsub(lin(w), n)
                p = ctx.zeros(pad) if f == b"\0" else self.repeat(f, pyint(ctx.norm(pad)))
                return wrapm(ctx.cat([v, p] if name == "ljust" else [p, v]))
            return N(just)
        if name == "zfill":
            def zfill(w):
                v = val()
                n = ctx.blen(v)
                if ctx.le(lin(w), n):
                    return wrapm(v)
                p = self.repeat(b"0", pyint(ctx.norm(lsub(lin(w), n))))
                if ctx.le(Lin(1), n):
                    h = ctx.bslice(v, Lin(0), Lin(1))
                    if ctx.beq(h, b"+") or ctx.beq(h, b"-"):
                        return wrapm(ctx.cat([h, p, ctx.bslice(v, Lin(1), n)]))
                return wrapm(ctx.cat([p, v]))
            return N(zfill)
        if name in ("strip", "lstrip", "rstrip", "split", "replace", "lower", "upper", "partition", "rpartition", "translate", "title",
                    "removeprefix", "removesuffix", "splitlines", "isalnum", "isalpha", "isdigit", "isascii", "islower", "isupper", "isspace", "center",
                    "rsplit", "expandtabs", "swapcase", "capitalize"):
            def meth(*a, **k):
                v = val()
                aa = [self.bufferlike(x) if isinstance(x, BYTESY) else x for x in a]
                if isinstance(v, bytes) and self.conc(*aa):
                    r = I.host(getattr(v, name), *aa, **k)
                    return BArr(r) if mut and isinstance(r, bytes) else r
                if name in ("isalnum", "isalpha", "isdigit", "isascii", "islower", "isupper", "isspace"):
                    return ctx.opaque(("bpred", name, v), "%s.%s()" % (show(v), name))
                if name == "removeprefix":
                    b = aa[0]
                    n, m = ctx.blen(v), ctx.blen(b)
                    if ctx.le(m, n) and ctx.beq(ctx.bslice(v, Lin(0), m), b):
                        return ctx.bslice(v, m, n)
                    return v
                if name == "removesuffix":
                    b = aa[0]
                    n, m = ctx.blen(v), ctx.blen(b)
                    if ctx.le(m, n) and ctx.beq(ctx.bslice(v, lsub(n, m), n), b):
                        return ctx.bslice(v, Lin(0), lsub(n, m))
                    return v
                if name in ("strip", "lstrip", "rstrip") and (not aa or aa[0] is None or isinstance(aa[0], bytes)):
                    cs = frozenset(aa[0] if aa and aa[0] is not None else b" \t\n\r\x0b\f")
                    if name != "lstrip":
                        v = self.strip_sym(v, cs, True)
                    if name != "rstrip":
                        v = self.strip_sym(v, cs, False)
                    return wrapm(v)
                if name in ("partition", "rpartition") and isinstance(aa[0], bytes) and aa[0]:
                    p = self.find_sym(v, aa[0])
                    e = wrapm(b"")
                    if p is None:
                        return (wrapm(v), e, e) if name == "partition" else (e, e, wrapm(v))
                    q = ladd(p, len(aa[0]))
                    return (wrapm(ctx.bslice(v, Lin(0), p)), wrapm(aa[0]), wrapm(ctx.bslice(v, q, ctx.blen(v))))
                if name in ("replace", "lower", "upper", "translate", "title", "swapcase", "capitalize", "expandtabs") and self.conc(*aa) and not k:
                    if ctx.opaque(("bsame", name, v, tuple(aa)), "%s.%s() changes nothing" % (show(v), name)):
                        return wrapm(v)
                    at = ("fn", name, v, tuple(aa))
                    if name in ("lower", "upper", "title", "swapcase", "capitalize") or name == "translate" and len(aa) == 1 \
                            or name == "replace" and len(aa) == 2 and len(aa[0]) == len(aa[1]):
                        ctx.lens[at] = ctx.blen(v)
                    return wrapm(ctx.atom_bytes(at))
                return Top("bytes." + name)
            return N(meth)
        if name == "__bytes__":
            return N(lambda: val())
        if mut:
            if name == "extend":
                def ext(x):
                    o.v = ctx.cat([o.v, self.tobytes(x, strict=True)])
                return N(ext)
            if name == "append":
                def app(x):
                    o.v = ctx.cat([o.v, self.byte(x)])
                return N(app)
            if name == "clear":
                def clr():
                    o.v = b""
                return N(clr)
            if name == "copy":
                return N(lambda: same_kind(o, o.v))
            if name == "pop":
                def pop(i=-1):
                    x = self.getitem(o, i)
                    self.delitem(o, i if i != -1 else slice(-1, None))
                    return x
                return N(pop)
            if name == "insert":
                def ins(i, x):
                    if not isinstance(i, int) or i < 0:
                        raise Unsupported("insert")
                    i2 = Lin(i) if ctx.le(Lin(i), ctx.blen(o.v)) else ctx.blen(o.v)
                    o.v = ctx.cat([ctx.bslice(o.v, Lin(0), i2), self.byte(x), ctx.bslice(o.v, i2, ctx.blen(o.v))])
                return N(ins)
            if name in ("reverse", "remove"):
                def rv(*a):
                    if isinstance(o.v, bytes):
                        x = bytearray(o.v)
                        I.host(getattr(x, name), *a)
                        o.v = bytes(x)
                    else:
                        raise Unsupported("bytearray." + name)
                return N(rv)
        if name == "fromhex":
            return self.cls_attr(self.type_of(o), "fromhex")
        return None

    def find_sym(self, v, q):
        """position of q in v: absent (None), or some position where v holds q"""
        ctx = self.ctx
        n, m = ctx.blen(v), ctx.blen(q)
        if not ctx.le(m, n):
            return None
        if ctx.opaque(("find", v, q), "%s occurs in %s" % (show(q), show(v))):
            p = latom(("len", ("pos", ctx.fresh("pos"))))
            if not ctx.le(ladd(p, m), n):
                raise Infeasible()
            if not ctx.beq(ctx.bslice(v, p, ladd(p, m)), q):
                raise Infeasible()
            return p
        return None

    def strip_sym(self, v, cs, right):
        """v without the bytes of cs at one end: unchanged when the end byte is not in cs, else some shorter piece"""
        ctx = self.ctx
        n = ctx.blen(v)
        if ctx.eq0(n):
            return v
        if not self.inset(self.getitem(v, -1 if right else 0), cs):
            return v
        m = latom(("len", ("strip", ctx.fresh("strip"))))
        if not ctx.le(ladd(m, 1), n):
            raise Infeasible()
        return ctx.bslice(v, Lin(0), m) if right else ctx.bslice(v, lsub(n, m), n)

    def sj(self, parts):
        s = self.sjoin([SStr((p,)) if not isinstance(p, str) else p for p in parts])
        return s.parts if isinstance(s, SStr) else (s,)

    def str_attr(self, o, name):
        I = self.I

        def N(f):
            return Nat(name, lambda I, a, k: f(*a, **k))
        if name == "format":
            return Nat(name, lambda I, a, k: self.fmt_str(o, a, k))
        if name == "join":
            def join(it):
                if isinstance(it, Top):
                    return SStr((("top", "join"),))
                out = []
                for i, x in enumerate(self.iterate(it)):
                    if i:
                        out.append(o)
                    if isinstance(x, Top):
                        x = SStr((("top", x.why),))
                    if not isinstance(x, (str, SStr)):
                        I.throw("TypeError", "sequence item %d: expected str instance, %s found" % (i, self.type_of(x).name))
                    out.append(x)
                return self.sjoin(out)
            return N(join)
        if name == "encode":
            return N(lambda encoding="utf-8", errors="strict": self.encode(o, encoding, errors))
        if isinstance(o, str):
            if hasattr(o, name):
                def f(*a, **k):
                    if not self.conc(*a):
                        if any(isinstance(x, SStr) for x in a):
                            return Top("str." + name)
                    return I.host(getattr(o, name), *a, **k)
                return N(f)
            return None
        if hasattr("", name):
            def g(*a, **k):
                if name in ("lower",) and all(not isinstance(p, str) and p[0] == "hex" for p in o.parts):
                    return o
                return SStr((("top", "str." + name),) + tuple(p for p in o.parts if not isinstance(p, str))) if name in ("lower", "upper", "strip", "ljust", "rjust", "zfill", "replace") else Top("str." + name)
            return N(g)
        return None

    def list_attr(self, o, name):
        I = self.I
        L = o.v if isinstance(o, Deque) else o

        def N(f):
            return Nat(name, lambda I, a, k: f(*a, **k))
        if name == "append":
            def app(x):
                if isinstance(x, tuple) and len(x) == 2 and x[0] == "*sym":
                    return
                L.append(x)
                if isinstance(o, Deque) and o.maxlen is not None and len(L) > o.maxlen:
                    L.pop(0)
            return N(app)
        if name == "extend":
            def ext(x):
                vs = list(self.iterate(x))
                L.extend(vs)
                if isinstance(o, Deque) and o.maxlen is not None and len(L) > o.maxlen:
                    del L[:len(L) - o.maxlen]
            return N(ext)
        if name == "pop":
            def pop(i=-1):
                if not L:
                    I.throw("IndexError", "pop from empty list")
                return L.pop(self.index(i, len(L)))
            return N(pop)
        if name == "clear":
            return N(lambda: L.clear())
        if name == "insert":
            return N(lambda i, x: L.insert(i if isinstance(i, int) else self.index(i, len(L) + 1), x))
        if name == "copy":
            return N(lambda: Deque(list(L), o.maxlen) if isinstance(o, Deque) else list(L))
        if name == "reverse":
            return N(lambda: L.reverse())
        if name == "index":
            def idx(x, *r):
                for i, y in enumerate(L):
                    if self.truth(self.eq(y, x)):
                        return i
                I.throw("ValueError", "not in list")
            return N(idx)
        if name == "remove":
            def rem(x):
                for i, y in enumerate(L):
                    if self.truth(self.eq(y, x)):
                        del L[i]
                        return
                I.throw("ValueError", "list.remove(x): x not in list")
            return N(rem)
        if name == "count":
            return N(lambda x: sum(1 for y in L if self.truth(self.eq(y, x))))
        if name == "sort":
            def srt(key=None, reverse=False):
                L[:] = self.b_sorted(list(L), key=key, reverse=reverse)
            return N(srt)
        if isinstance(o, Deque):
            if name == "popleft":
                def popl():
                    if not L:
                        I.throw("IndexError", "pop from an empty deque")
                    return L.pop(0)
                return N(popl)
            if name == "appendleft":
                def apl(x):
                    L.insert(0, x)
                    if o.maxlen is not None and len(L) > o.maxlen:
                        L.pop()
                return N(apl)
            if name == "extendleft":
                def el(x):
                    for y in list(self.iterate(x)):
                        L.insert(0, y)
                        if o.maxlen is not None and len(L) > o.maxlen:
                            L.pop()
                return N(el)
            if name == "rotate":
                def rot(n=1):
                    if L:
                        k = n % len(L)
                        L[:] = L[-k:] + L[:-k] if k else L
                return N(rot)
            if name == "maxlen":
                return o.maxlen
        return None

    def dict_attr(self, o, name):
        I = self.I

        def N(f):
            return Nat(name, lambda I, a, k: f(*a, **k))

        def key(k):
            return self.dkey(o, I.hkey(k))
        if name == "get":
            return N(lambda k, d=None: o.get(key(k), d))
        if name == "items":
            return N(lambda: [(k, v) for k, v in o.items()])
        if name == "keys":
            return N(lambda: list(o))
        if name == "values":
            return N(lambda: list(o.values()))
        if name == "copy":
            return N(lambda: dict(o))
        if name == "clear":
            return N(lambda: o.clear())
        if name == "update":
            def upd(*a, **k):
                if a:
                    for kk, vv in self.ctor_dict([a[0]], {}).items():
                        o[key(kk)] = vv
                o.update(k)
            return N(upd)
        if name == "setdefault":
            return N(lambda k, d=None: o.setdefault(key(k), d))
        if name == "pop":
            def pop(k, *d):
                k = key(k)
                if k in o:
                    return o.pop(k)
                if d:
                    return d[0]
                I.throw("KeyError", k)
            return N(pop)
        if name == "popitem":
            return N(lambda: o.popitem() if o else I.throw("KeyError", "popitem(): dictionary is empty"))
        if name == "move_to_end":
            return N(lambda k, last=True: (lambda k: o.__setitem__(k, o.pop(k)))(key(k)))
        return None

    def set_attr(self, o, name):
        if hasattr(o, name):
            def f(I, a, k):
                if name in ("update", "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "symmetric_difference", "intersection_update", "difference_update"):
                    if any(isinstance(x, Top) for x in a):
                        return Top(name)
                    a = [set(self.dkey(o, y) for y in (x if isinstance(x, (set, frozenset)) else self.mkset(self.iterate(x)))) for x in a]
                if name in ("add", "discard", "remove"):
                    a = [self.dkey(o, I.hkey(x)) for x in a]
                return I.host(getattr(o, name), *a)
            return Nat(name, f)
        return None

    def dkey(self, c, k):
        """the key of c that equals k (partitioning where the equality of abstract keys is open), or k"""
        if k in c:
            return k
        if isinstance(k, (Lin, SBytes, SStr)):
            sym = True
        elif isinstance(k, tuple):
            sym = any(isinstance(x, (Lin, SBytes, SStr, tuple)) for x in k) or any(isinstance(kk, tuple) and symk(kk) for kk in c)
        elif isinstance(k, (bytes, int)):
            sym = any(isinstance(kk, (Lin, SBytes)) for kk in c)
        else:
            sym = False
        if sym:
            for kk in list(c):
                if type(kk) is str and not isinstance(k, SStr):
                    continue
                if isinstance(kk, tuple) != isinstance(k, tuple):
                    continue
                if self.truth(self.eq(kk, k)):
                    return kk
        return k

    def tuple_attr(self, o, name):
        if name == "index":
            return self.list_attr(list(o), name)
        if name == "count":
            return self.list_attr(list(o), name)
        return None

    def int_attr(self, o, name):
        if name == "to_bytes":
            return Nat(name, lambda I, a, k: self.int_to_bytes(o, *a, **k))
        if name == "from_bytes":
            return Nat(name, lambda I, a, k: self.int_from_bytes(*a, **k))
        if name in ("real", "numerator"):
            return o
        if name in ("bit_length", "bit_count"):
            return Nat(name, lambda I, a, k: getattr(o, name)() if isinstance(o, int) else Top(name))
        if name == "__index__" or name == "__int__":
            return Nat(name, lambda I, a, k: o)
        return None

    def gen_attr(self, g, name):
        I = self.I

        def step(kind, v=None):
            m = g.resume(kind, v)
            if m[0] == "end":
                I.throw("StopIteration", *([] if m[1] is None else [m[1]]))
            return m[1]
        if g.isasync:
            def astep(kind, v=None):
                def run():
                    m = g.resume(kind, v)
                    if m[0] == "end":
                        I.throw("StopAsyncIteration")
                    return m[1]
                return Coro(name, run)
            if name == "__anext__":
                return Nat(name, lambda I, a, k: astep("send", None))
            if name == "asend":
                return Nat(name, lambda I, a, k: astep("send", a[0]))
            if name == "athrow":
                return Nat(name, lambda I, a, k: astep("throw", I.call(a[0], [], {}) if isinstance(a[0], Cls) else a[0]))
            if name == "aclose":
                return Nat(name, lambda I, a, k: Coro(name, g.close))
            if name == "__aiter__":
                return Nat(name, lambda I, a, k: g)
            return None
        if name in ("__next__",):
            return Nat(name, lambda I, a, k: step("send", None))
        if name == "send":
            return Nat(name, lambda I, a, k: step("send", a[0]))
        if name == "throw":
            return Nat(name, lambda I, a, k: step("throw", I.call(a[0], [], {}) if isinstance(a[0], Cls) else a[0]))
        if name == "close":
            return Nat(name, lambda I, a, k: g.close())
        if name == "__iter__":
            return Nat(name, lambda I, a, k: g)
        return None

    # ------------------------------------------------------------------ builtin functions
    def b_len(self, v):
        r = self.len(v)
        return r

    def b_isinstance(self, v, t):
        return self.isinstance(v, t)

    def b_issubclass(self, c, t):
        if isinstance(t, tuple):
            return any(self.b_issubclass(c, x) for x in t)
        if isinstance(c, Top) or isinstance(t, Top):
            return Top("issubclass")
        return c.sub(t)

    def b_getattr(self, o, n, *d):
        if isinstance(n, (SStr, Top)):
            return Top("getattr")
        try:
            return self.I.getattr(o, n)
        except PyExc as e:
            if d and e.obj.cls.sub(self.exc["AttributeError"]):
                return d[0]
            raise

    def b_setattr(self, o, n, v):
        self.I.setattr(o, n, v)

    def object_delattr(self, o, n):
        if n not in o.d:
            self.I.throw("AttributeError", n)
        del o.d[n]

    def b_delattr(self, o, n):
        self.I.delattr(o, n)

    def b_hasattr(self, o, n):
        if isinstance(o, Top):
            return Top("hasattr")
        try:
            self.I.getattr(o, n)
            return True
        except PyExc as e:
            if e.obj.cls.sub(self.exc["AttributeError"]):
                return False
            raise

    def b_super(self, *a):
        return self.I.mk_super(a[0], a[1])

    def b_enumerate(self, it, start=0):
        def g():
            i = start
            for x in self.iterate(it):
                yield (i, x)
                i = i + 1 if isinstance(i, int) else pyint(ladd(lin(i), 1))
        return It(g())

    def b_zip(self, *its, strict=False):
        def g():
            hs = [self.iterate(x) for x in its]
            while True:
                row = []
                for h in hs:
                    try:
                        row.append(next(h))
                    except StopIteration:
                        return
                yield tuple(row)
                if not hs:
                    return
        return It(g())

    def b_map(self, f, *its):
        def g():
            hs = [self.iterate(x) for x in its]
            while True:
                row = []
                for h in hs:
                    try:
                        row.append(next(h))
                    except StopIteration:
                        return
                yield self.I.call(f, row, {})
        return It(g())

    def b_filter(self, f, it):
        def g():
            for x in self.iterate(it):
                if self.truth(x if f is None else self.I.call(f, [x], {})):
                    yield x
        return It(g())

    def b_reversed(self, v):
        if isinstance(v, Obj) and v.cls.find("__reversed__"):
            return self.I.callm(v, "__reversed__")
        return It(iter(list(self.iterate(v))[::-1]))

    def b_iter(self, v, *s):
        if s:
            def g():
                k = 0
                while True:
                    n0 = self.ctx.exec_forks
                    x = self.I.call(v, [], {})
                    if self.truth(self.eq(x, s[0])):
                        return
                    yield x
                    if self.ctx.exec_forks != n0:
                        k += 1
                        if k > self.ctx.K:
                            raise Cut("loop unrolling bound")
            return It(g())
        if isinstance(v, (It, Gen)):
            return v
        if isinstance(v, Top):
            return v
        if isinstance(v, Obj) and v.cls.find("__iter__") is not None:
            return self.I.callm(v, "__iter__")
        return It(self.iterate(v))

    def b_next(self, it, *d):
        I = self.I
        if isinstance(it, It):
            try:
                return next(it.it)
            except StopIteration:
                pass
        elif isinstance(it, Gen):
            m = it.resume("send", None)
            if m[0] != "end":
                return m[1]
        elif isinstance(it, Obj) and it.cls.find("__next__") is not None:
            try:
                return I.callm(it, "__next__")
            except PyExc as e:
                if not (d and e.obj.cls.sub(self.exc["StopIteration"])):
                    raise
        elif isinstance(it, Top):
            return Top("next")
        else:
            I.throw("TypeError", "'%s' object is not an iterator" % self.type_of(it).name)
        if d:
            return d[0]
        I.throw("StopIteration")

    def b_any(self, it):
        b = self.bufferlike(it) if isinstance(it, BYTESY) else None
        if isinstance(b, SBytes):
            return not self.ctx.beq(b, self.ctx.zeros(self.ctx.blen(b)))
        for x in self.iterate(it):
            if self.truth(x):
                return True
        return False

    def b_all(self, it):
        for x in self.iterate(it):
            if not self.truth(x):
                return False
        return True

    def b_sum(self, it, start=0):
        t = start
        for x in self.iterate(it):
            t = self.binop("+", t, x)
        return t

    def b_min(self, *a, key=None, default=None):
        return self.minmax(a, key, ast.Lt, default)

    def b_max(self, *a, key=None, default=None):
        return self.minmax(a, key, ast.Gt, default)

    def minmax(self, a, key, op, default):
        if len(a) == 1 and isinstance(a[0], SymSeq):
            return self.I.call(key, [a[0].rep], {}) if False else Top("min/max")
        vs = list(self.iterate(a[0])) if len(a) == 1 else list(a)
        if not vs:
            if default is not None:
                return default
            self.I.throw("ValueError", "min() arg is an empty sequence")
        best = vs[0]
        kb = best if key is None else self.I.call(key, [best], {})
        for x in vs[1:]:
            kx = x if key is None else self.I.call(key, [x], {})
            if self.truth(self.order(op, kx, kb)):
                best, kb = x, kx
        return best

    def b_abs(self, v):
        if isinstance(v, (int, float)):
            return abs(v)
        if isinstance(v, Lin):
            return pyint(lmul(v, -1)) if self.ctx.le0(v) else v
        return Top("abs")

    def b_divmod(self, a, b):
        return (self.binop("//", a, b), self.binop("%", a, b))

    def b_pow(self, a, b, m=None):
        if m is None:
            return self.binop("**", a, b)
        if self.conc(a, b, m):
            return self.I.host(pow, a, b, m)
        return Top("pow")

    def b_round(self, v, n=None):
        return self.I.host(round, v, n) if isinstance(v, (int, float)) else Top("round")

    def b_sorted(self, it, key=None, reverse=False):
        import functools
        if key is None and self.bag("sorted", it) is not None:
            return self.bag("sorted", it)
        vs = list(self.iterate(it))
        ks = [x if key is None else self.I.call(key, [x], {}) for x in vs]

        def cmp(i, j):
            if self.truth(self.order(ast.Lt, ks[i], ks[j])):
                return -1
            if self.truth(self.order(ast.Lt, ks[j], ks[i])):
                return 1
            return 0
        idx = sorted(range(len(vs)), key=functools.cmp_to_key(cmp), reverse=bool(reverse))
        return [vs[i] for i in idx]

    def b_repr(self, v):
        return self.repr(v)

    b_ascii = b_repr

    def b_format(self, v, spec=""):
        return self.format(v, spec)

    def b_print(self, *a, **k):
        self.I.event("print", tuple(self.str(x) for x in a))

    def fnint(self, fn, v, lo=None, hi=None):
        """an unknown integer function of a byte string: equal arguments give equal values, different ones may"""
        ctx = self.ctx
        v = ctx.renorm(v) if isinstance(v, SBytes) else bytes(v)
        seen = self.I.fnargs.setdefault(fn, [])
        for w in seen:
            if w == v or (isinstance(v, SBytes) or isinstance(w, SBytes)) and ctx.beq(v, w):
                v = w
                break
        else:
            seen.append(v)
        a = ("fnint", fn, v)
        if lo is not None or hi is not None:
            ctx.bounds.setdefault(a, (lo, hi))
        return pyint(latom(a))

    def b_hash(self, v):
        if isinstance(v, SBytes):
            return self.fnint("hash", v)
        if isinstance(v, bytes):
            return self.fnint("hash", v)
        if isinstance(v, Obj) and v.cls.find("__hash__") is not None:
            return self.I.callm(v, "__hash__")
        return Top("hash")

    def b_id(self, v):
        return id(v)

    def b_callable(self, v):
        if isinstance(v, Top):
            return v
        return isinstance(v, (Func, BMeth, Nat, Cls)) or isinstance(v, Obj) and v.cls.find("__call__") is not None

    def b_chr(self, v):
        if isinstance(v, Lin):
            lo, hi = self.ctx.range(v)
            if lo is not None and hi is not None and lo >= 0 and hi < 256:
                return SStr((("decode", self.ctx.le_bytes(v, 1), "latin-1"),))
            return Top("chr")
        return self.I.host(chr, v) if isinstance(v, int) else Top("chr")

    def b_ord(self, v):
        if isinstance(v, (str, bytes)):
            return self.I.host(ord, v)
        if isinstance(v, SBytes):
            return self.ctx.dec(v)
        if isinstance(v, SStr) and len(v.parts) == 1 and v.parts[0][0] == "decode" and v.parts[0][2] in ("ascii", "latin-1"):
            return self.ctx.dec(v.parts[0][1])
        return Top("ord")

    def b_hex(self, v):
        return hex(v) if isinstance(v, int) else SStr((("int", v),)) if isinstance(v, Lin) else Top("hex")

    def b_bin(self, v):
        return bin(v) if isinstance(v, int) else SStr((("int", v),)) if isinstance(v, Lin) else Top("bin")

    def b_oct(self, v):
        return oct(v) if isinstance(v, int) else Top("oct")

    def b_vars(self, o=None):
        if isinstance(o, Obj):
            return o.d
        if isinstance(o, (Cls, Mod)):
            return o.ns
        return Top("vars")

    def b_dir(self, o=None):
        if isinstance(o, Cls):
            return sorted({k for c in o.mro for k in c.ns})
        if isinstance(o, Obj):
            return sorted({k for c in o.cls.mro for k in c.ns} | set(o.d))
        return Top("dir")

    def b_globals(self):
        return self.I.frames[-1].scope.mod.ns

    def b_locals(self):
        return dict(self.I.frames[-1].scope.vars)

    def b_open(self, *a, **k):
        return Top("open")

    def b_input(self, *a):
        return Top("input")

    def b_exec(self, *a):
        raise Unsupported("exec")

    def b_eval(self, *a):
        raise Unsupported("eval")

    def b_compile(self, *a, **k):
        raise Unsupported("compile")

    def b___import__(self, name, *a, **k):
        return self.I.import_(name)

    def b_aiter(self, v):
        return self.I.callm(v, "__aiter__")

    def b_anext(self, v):
        return self.I.callm(v, "__anext__")
