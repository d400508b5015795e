"""Abstract interpreter over the Python syntax tree.

Values: concrete host values (None, bool, int, float, str, bytes, tuple, list, dict, set, range, slice),
abstract values (Lin, SBytes, SStr, Top) and interpreter objects (Obj, Cls, Func, ...).  Comparisons
and truth tests are decided from the abstract state, or partition the trace (Ctx.choose).
Nothing of the analysed program is imported or executed.
"""
import ast
import os
import string
import threading

from .domain import *

threading.stack_size(64 * 1024 * 1024)


class Unsupported(Exception):
    """A construct outside the modelled language: the trace is undecided."""


class Blocked(Exception):
    """The scenario has no further input for the analysed party."""


class PyExc(Exception):
    def __init__(self, obj):
        Exception.__init__(self)
        self.obj = obj


class Top:
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "TOP(%s)" % self.why


class Bag(Top):
    """the set / the sorted list / the histogram of the bytes of an abstract byte string"""
    __slots__ = ("kind", "v")

    def __init__(self, kind, v):
        self.why, self.kind, self.v = kind, kind, v


class SStr:
    """symbolic str: tuple of str | ('hex', b) | ('int', l) | ('repr', b) | ('decode', b, enc) | ('top', why)"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, SStr) and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return "SStr(%r)" % (self.parts,)


class Obj:
    __slots__ = ("cls", "d", "seq", "mem", "off", "ext")

    def __init__(self, cls, d=None):
        self.cls = cls
        self.d = {} if d is None else d
        self.seq = None
        self.mem = None
        self.off = 0
        self.ext = None

    def __repr__(self):
        return "<%s>" % self.cls.name


class Cls:
    def __init__(self, name, bases=(), ns=None, meta=None, mod="builtins", ctor=None):
        self.name = name
        self.bases = tuple(bases)
        self.ns = {} if ns is None else ns
        self.meta = meta
        self.mod = mod
        self.ctor = ctor
        self.ext = {}
        self.native = False
        self.file = None
        self.mro = c3(self)

    def __repr__(self):
        return "<class %s>" % self.name

    def find(self, n):
        for c in self.mro:
            if n in c.ns:
                return c.ns[n]
        return None

    def has(self, n):
        return any(n in c.ns for c in self.mro)

    def sub(self, o):
        return o in self.mro


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise Unsupported("inconsistent MRO")
        out.append(c)
        for s in seqs:
            if s[0] is c:
                del s[0]


class Func:
    def __init__(self, node, scope, mod, name, qual):
        self.node = node
        self.scope = scope
        self.mod = mod
        self.name = name
        self.qual = qual
        self.defaults = []
        self.kwdefaults = {}
        self.clscell = None
        self.d = {}
        self.abstract = False

    def __repr__(self):
        return "<function %s>" % self.qual


class BMeth:
    __slots__ = ("f", "o")

    def __init__(self, f, o):
        self.f = f
        self.o = o

    def __eq__(self, other):
        return isinstance(other, BMeth) and other.f is self.f and other.o is self.o

    def __hash__(self):
        return hash((id(self.f), id(self.o)))


class Nat:
    """native function: fn(I, args, kw)"""
    __slots__ = ("name", "fn", "d")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.d = {}

    def __repr__(self):
        return "<native %s>" % self.name


class NMeth(Nat):
    """native method (binds)"""
    __slots__ = ()


class ANat(NMeth):
    """native coroutine method: awaiting runs it"""
    __slots__ = ()


class Prop:
    def __init__(self, g=None, s=None, d=None):
        self.g, self.s, self.dl = g, s, d


class NDesc:
    """native data descriptor"""

    def __init__(self, get, set=None):
        self.get, self.set = get, set


class SMeth:
    def __init__(self, f):
        self.f = f


class CMeth:
    def __init__(self, f):
        self.f = f


class Mod:
    def __init__(self, name, ns=None, file=None):
        self.name = name
        self.ns = {} if ns is None else ns
        self.file = file

    def __repr__(self):
        return "<module %s>" % self.name


class TopMod(Mod):
    pass


class Super:
    def __init__(self, cls, obj, objcls):
        self.cls, self.obj, self.objcls = cls, obj, objcls


class Coro:
    def __init__(self, name, thunk):
        self.name = name
        self.thunk = thunk
        self.done = False


class It:
    """host iterator wrapper"""

    def __init__(self, it):
        self.it = it
        self.buf = []


class BArr:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class BList(BArr):
    """list (or tuple) of the values of a byte string of unknown length"""
    __slots__ = ("kind",)

    def __init__(self, v, kind="list"):
        self.v, self.kind = v, kind


def same_kind(o, v):
    return BList(v, o.kind) if isinstance(o, BList) else BArr(v)


class MView:
    """memoryview: window into a bytes value or a BArr"""
    __slots__ = ("base", "lo", "hi", "raw")

    def __init__(self, base, lo, hi, raw=False):
        self.base, self.lo, self.hi = base, lo, hi
        self.raw = raw          # of a ctypes object, not cast to bytes yet


class SymSeq:
    """abstract sequence: symbolic length, one representative element"""

    def __init__(self, n, rep, tup=True):
        self.n, self.rep, self.tup = n, rep, tup


class Deque:
    __slots__ = ("v", "maxlen")

    def __init__(self, v, maxlen=None):
        self.v = v
        self.maxlen = maxlen


class Scope:
    __slots__ = ("vars", "parent", "kind", "mod", "info", "func", "ns")

    def __init__(self, kind, mod, parent=None, func=None, info=None, vars=None):
        self.kind = kind
        self.mod = mod
        self.parent = parent
        self.func = func
        self.info = info
        self.vars = {} if vars is None else vars


class Frame:
    __slots__ = ("scope", "func", "file", "node", "exc", "gen")

    def __init__(self, scope, func, file):
        self.scope = scope
        self.func = func
        self.file = file
        self.node = None
        self.exc = None
        self.gen = None


class Ev:
    __slots__ = ("kind", "data", "loc", "n")

    def __init__(self, kind, data, loc, n):
        self.kind, self.data, self.loc, self.n = kind, data, loc, n

    def __repr__(self):
        return "%s%r@%s" % (self.kind, self.data, self.loc)


class Info:
    __slots__ = ("locals", "globals", "nonlocals", "isgen", "names")


_FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
_COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def fn_info(node):
    inf = getattr(node, "_info", None)
    if inf is not None:
        return inf
    inf = Info()
    inf.locals, inf.globals, inf.nonlocals, inf.isgen = set(), set(), set(), False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        inf.locals.add(x.arg)
    if a.vararg:
        inf.locals.add(a.vararg.arg)
    if a.kwarg:
        inf.locals.add(a.kwarg.arg)

    def walk(n, comp=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            inf.locals.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, _COMP):
            for c in ast.iter_child_nodes(n):
                walk(c, True)
            return
        if isinstance(n, ast.NamedExpr):
            inf.locals.add(n.target.id)
            walk(n.value, comp)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not comp:
            inf.locals.add(n.id)
        elif isinstance(n, ast.Global):
            inf.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            inf.nonlocals.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)) and not comp:
            inf.isgen = True
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                inf.locals.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            inf.locals.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            inf.locals.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            inf.locals.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c, comp)
    body = node.body if isinstance(node.body, list) else [node.body]
    for st in body:
        walk(st)
    inf.locals -= inf.globals | inf.nonlocals
    node._info = inf
    return inf


_ast_cache = {}


def parse_file(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    t = _ast_cache.get(key)
    if t is None:
        with open(path, "rb") as f:
            t = ast.parse(f.read(), path)
        _ast_cache[key] = t
    return t


# ------------------------------------------------------------------ generator support (lazily resumed)
class Gen:
    """interpreted generator; body runs in a helper thread that strictly alternates with its consumer"""

    def __init__(self, I, run, name):
        self.I = I
        self.run = run
        self.name = name
        self.started = False
        self.finished = False
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.msg = None
        self.inp = None
        self.own = []              # frames of the suspended body, above those of whoever resumes it
        I.gens.append(self)

    def _body(self):
        self.go.acquire()
        try:
            if self.inp and self.inp[0] == "kill":
                self.msg = ("end", None)
                return
            r = self.run(self)
            self.msg = ("end", r)
        except _Kill:
            self.msg = ("end", None)
        except BaseException as e:
            self.msg = ("exc", e)
        finally:
            self.finished = True
            self.back.release()

    def yield_(self, v):
        self.msg = ("val", v)
        self.back.release()
        self.go.acquire()
        k, x = self.inp
        if k == "kill":
            raise _Kill()
        if k == "throw":
            raise PyExc(x)
        return x

    def resume(self, kind, v=None):
        if self.finished:
            return ("end", None)
        if not self.started:
            self.started = True
            if kind == "throw":
                self.finished = True
                raise PyExc(v)
            t = threading.Thread(target=self._body, daemon=True)
            try:
                t.start()
            except (RuntimeError, MemoryError):
                self.finished = True
                raise Unsupported("too many generators at once")
        frames = self.I.frames
        self.I.frames = frames + self.own
        self.inp = (kind, v)
        self.go.release()
        self.back.acquire()
        self.own = self.I.frames[len(frames):]
        self.I.frames = frames
        m = self.msg
        if m[0] == "exc":
            raise m[1]
        return m

    isasync = False

    def close(self):
        """generator.close()"""
        I = self.I
        if self.finished or not self.started:
            self.finished = True
            return
        try:
            m = self.resume("throw", I.call(I.exc["GeneratorExit"], [], {}))
        except PyExc as e:
            if e.obj.cls.sub(I.exc["GeneratorExit"]) or e.obj.cls.sub(I.exc["StopIteration"]):
                return
            raise
        if m[0] != "end":
            I.throw("RuntimeError", "generator ignored GeneratorExit")

    def kill(self):
        if self.started and not self.finished:
            try:
                self.resume("kill")
            except BaseException:
                pass
        self.finished = True


class _Kill(BaseException):
    pass


BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "<<": "lshift",
          ">>": "rshift", "|": "or", "&": "and", "^": "xor", "@": "matmul"}
HOSTBIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
           "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b, "<<": lambda a, b: a << b,
           ">>": lambda a, b: a >> b, "|": lambda a, b: a | b, "&": lambda a, b: a & b, "^": lambda a, b: a ^ b}

BYTESY = (bytes, SBytes, BArr, MView)
INTS = (int, Lin)

CTRL = (Infeasible, Cut, Unsupported, Blocked, PyExc, _Kill)

BRK, CONT = ("brk",), ("cont",)


class Interp:
    MAXSTEPS = 400000
    MAXDEPTH = 985         # frames; the interpreter's limit is 1000, of which the application above the entry point uses some

    def __init__(self, ctx, root="/repo", env=None):
        from . import builtins_model, models
        self.ctx = ctx
        ctx.interp = self
        self.root = root
        self.env = env or {}
        self.events = []
        self.frames = []
        self.recur = {}
        self.fnargs = {}
        self.gens = []
        self.steps = 0
        self.MAXSTEPS = self.env.get("maxsteps", self.MAXSTEPS)
        self.imprecise = None
        self.modules = {}
        self.funcs_seen = set()
        self.calls = 0
        self.B = builtins_model.Builtins(self)
        self.exc = self.B.exc
        self.builtins = self.B.ns
        self.models = models.Models(self)
        self.class_hook = None
        self.stmts = {getattr(ast, n[3:]): getattr(self, n) for n in dir(self) if n.startswith("st_")}
        self.exprs = {getattr(ast, n[3:]): getattr(self, n) for n in dir(self) if n.startswith("ev_")}

    # ------------------------------------------------------------------ bookkeeping
    def close(self):
        for g in self.gens:
            g.kill()
        self.gens = []

    lastfr, lastn = None, 0

    def lastpos(self):
        """the last statement of the analysed tree that was interpreted"""
        if self.lastfr is None:
            return "?"
        return "%s:%d (%s)" % (os.path.relpath(self.lastfr[0], self.root), self.lastfr[1], self.lastfr[2])

    def loc(self):
        """innermost source position inside the analysed tree"""
        for f in reversed(self.frames):
            if f.file and f.node is not None:
                return "%s:%d (%s)" % (os.path.relpath(f.file, self.root), f.node.lineno, f.func.qual if f.func else "<module>")
        return "?"

    def event(self, kind, *data):
        e = Ev(kind, data, self.loc(), len(self.events))
        self.events.append(e)
        if self.on_event is not None:
            h, self.on_event = self.on_event, None
            try:
                h(e)
            finally:
                self.on_event = h
        return e

    on_event = None

    def imprec(self, why):
        if self.imprecise is None:
            self.imprecise = (len(self.events), "%s at %s" % (why, self.loc()))

    # ------------------------------------------------------------------ exceptions
    def mkexc(self, name, *args):
        cls = name if isinstance(name, Cls) else self.exc[name]
        return self.call(cls, list(args), {})

    def throw(self, name, *args):
        raise PyExc(self.mkexc(name, *args))

    def host(self, fn, *args, **kw):
        """host operation on fully concrete arguments"""
        try:
            return fn(*args, **kw)
        except CTRL:
            raise
        except UnicodeError as e:
            self.throw(type(e).__name__, str(e))
        except (ValueError, TypeError, KeyError, IndexError, AttributeError, OverflowError, ZeroDivisionError,
                StopIteration, MemoryError) as e:
            self.throw(type(e).__name__, *[a for a in e.args if isinstance(a, (str, int, bytes))])

    # ------------------------------------------------------------------ modules
    def mod_path(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isdir(p):
            return None, True
        return None

    def import_(self, name):
        if name in self.modules:
            return self.modules[name]
        top = name.split(".")[0]
        if top == "saltchannel" or self.mod_path(top):
            parent = None
            if "." in name:
                parent = self.import_(name.rsplit(".", 1)[0])
                if name in self.modules:
                    return self.modules[name]
            mp = self.mod_path(name)
            if mp is None:
                self.throw("ModuleNotFoundError", "No module named '%s'" % name)
            path, pkg = mp
            m = Mod(name, {"__name__": name, "__file__": path or "", "__package__": name if pkg else name.rpartition(".")[0],
                           "__doc__": None}, path)
            self.modules[name] = m
            if path:
                try:
                    self.run_module(m, parse_file(path), path)
                except PyExc:
                    del self.modules[name]
                    raise
            if parent is not None:
                parent.ns[name.rsplit(".", 1)[1]] = m
            return m
        m = self.models.module(name)
        self.modules[name] = m
        if "." in name and not isinstance(m, TopMod):
            p = self.import_(name.rsplit(".", 1)[0])
            p.ns.setdefault(name.rsplit(".", 1)[1], m)
        return m

    def run_module(self, m, tree, path):
        sc = Scope("mod", m, vars=m.ns)
        fr = Frame(sc, None, path)
        self.frames.append(fr)
        try:
            self.block(tree.body, fr)
        finally:
            self.frames.pop()

    # ------------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            r = self.stmt(st, fr)
            if r is not None:
                return r
        return None

    def stmt(self, st, fr):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Cut("step budget")
        fr.node = st
        if fr.file and fr.func is not None:
            self.lastfr = (fr.file, st.lineno, fr.func.qual)
            self.lastn = len(self.events)
        h = self.stmts.get(type(st))
        if h is None:
            raise Unsupported("statement " + type(st).__name__)
        return h(st, fr)

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        v = self.ev(st.value, fr)
        if isinstance(v, Coro) and not v.done:
            self.event("unawaited", v.name)

    def st_Pass(self, st, fr):
        pass

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if fr.scope.kind == "class" and isinstance(st.target, ast.Name):
            fr.scope.vars.setdefault("__annotations__", {})[st.target.id] = st.annotation
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        op = BIN[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            self.setname(t.id, self.iop(op, cur, self.ev(st.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(op, cur, self.ev(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_slice(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.iop(op, cur, self.ev(st.value, fr)))
        else:
            raise Unsupported("augmented target")

    def iop(self, op, a, b):
        """in-place operator"""
        if isinstance(a, Obj):
            m = a.cls.find("__i%s__" % DUNDER[op])
            if m is not None:
                return self.call(self.bind(m, a), [b], {})
        if op == "+":
            if isinstance(a, list):
                a.extend(list(self.iterate(b)))
                return a
            if isinstance(a, BArr):
                a.v = self.ctx.cat([a.v, self.tobytes(b, strict=True)])
                return a
            if isinstance(a, Deque):
                a.v.extend(list(self.iterate(b)))
                if a.maxlen is not None and len(a.v) > a.maxlen:
                    del a.v[:len(a.v) - a.maxlen]
                return a
        if op == "|" and isinstance(a, dict) and isinstance(b, dict):
            a.update(b)
            return a
        if op == "|" and isinstance(a, set) and isinstance(b, (set, frozenset)):
            a |= b
            return a
        return self.binop(op, a, b)

    def st_Return(self, st, fr):
        return ("ret", None if st.value is None else self.ev(st.value, fr))

    def st_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            return self.block(st.body, fr)
        return self.block(st.orelse, fr)

    def st_While(self, st, fr):
        forked = 0
        while True:
            n0 = self.ctx.exec_forks
            if not self.truth(self.ev(st.test, fr)):
                return self.block(st.orelse, fr)
            r = self.block(st.body, fr)
            if r is not None:
                if r is BRK:
                    return None
                if r is not CONT:
                    return r
            fr.node = st
            if self.ctx.exec_forks != n0:
                forked += 1
                if forked > self.ctx.K:
                    raise Cut("loop unrolling bound")
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise Cut("step budget")

    def st_For(self, st, fr):
        return self.loop(st, fr, self.ev(st.iter, fr))

    def loop(self, st, fr, it):
        # a generator made by the loop's own header has no other reference: leaving the loop early closes it
        mine = it if isinstance(it, Gen) and isinstance(st.iter, ast.Call) and not it.started else None
        try:
            for v in self.iterate(it):
                self.assign(st.target, v, fr)
                r = self.block(st.body, fr)
                if r is not None:
                    if r is BRK:
                        return None
                    if r is not CONT:
                        return r
                fr.node = st
            mine = None
        except PyExc:
            if mine is not None and not mine.finished:
                mine.close()
            mine = None
            raise
        except BaseException:
            mine = None
            raise
        finally:
            if mine is not None and not mine.finished:
                mine.close()
        return self.block(st.orelse, fr)

    def st_AsyncFor(self, st, fr):
        it = self.ev(st.iter, fr)
        if isinstance(it, Gen):
            if not it.isasync:
                self.throw("TypeError", "'async for' requires an object with __aiter__ method, got generator")
            return self.loop(st, fr, it)
        it = self.callm(it, "__aiter__")
        while True:
            try:
                v = self.await_(self.callm(it, "__anext__"))
            except PyExc as e:
                if e.obj.cls.sub(self.exc["StopAsyncIteration"]):
                    break
                raise
            self.assign(st.target, v, fr)
            r = self.block(st.body, fr)
            if r is not None:
                if r is BRK:
                    return None
                if r is not CONT:
                    return r
        return self.block(st.orelse, fr)

    def st_Break(self, st, fr):
        return BRK

    def st_Continue(self, st, fr):
        return CONT

    def st_Raise(self, st, fr):
        if st.exc is None:
            if fr.exc is None:
                for f in reversed(self.frames):
                    if f.exc is not None:
                        raise PyExc(f.exc)
                self.throw("RuntimeError", "No active exception to reraise")
            raise PyExc(fr.exc)
        e = self.ev(st.exc, fr)
        if isinstance(e, Cls):
            e = self.call(e, [], {})
        if isinstance(e, Top):
            raise Unsupported("raise of unknown value")
        if not (isinstance(e, Obj) and e.cls.sub(self.exc["BaseException"])):
            self.throw("TypeError", "exceptions must derive from BaseException")
        if st.cause is not None:
            c = self.ev(st.cause, fr)
            if isinstance(c, Cls):
                c = self.call(c, [], {})
            e.d["__cause__"] = c
        self.event("raise", e, e.cls.name)
        raise PyExc(e)

    def st_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            self.throw("AssertionError", *([] if st.msg is None else [self.ev(st.msg, fr)]))

    def st_Try(self, st, fr):
        r = None
        pend = None
        saved = fr.exc
        try:
            try:
                r = self.block(st.body, fr)
                if r is None and st.orelse:
                    pend = "else"
            except PyExc as e:
                e = self.fix_exc(e)
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.obj, self.ev(h.type, fr)):
                        ctxobj = fr.exc
                        fr.exc = e.obj
                        if h.name:
                            self.setname(h.name, e.obj, fr)
                        try:
                            r = self.block(h.body, fr)
                        except PyExc as e2:
                            if e2.obj is not e.obj:
                                e2.obj.d.setdefault("__context__", e.obj)
                            raise
                        finally:
                            fr.exc = ctxobj
                        break
                else:
                    raise
            if pend:
                r = self.block(st.orelse, fr)
        except PyExc:
            fr.exc = saved
            if st.finalbody:
                r2 = self.block(st.finalbody, fr)
                if r2 is not None:
                    return r2
            raise
        except _Kill:
            if st.finalbody:
                self.block(st.finalbody, fr)
            raise
        if st.finalbody:
            r2 = self.block(st.finalbody, fr)
            if r2 is not None:
                return r2
        return r

    def fix_exc(self, e):
        return e

    def exc_match(self, obj, t):
        if isinstance(t, tuple):
            return any(self.exc_match(obj, x) for x in t)
        if isinstance(t, Top):
            self.imprec("except of unknown class")
            return self.ctx.choose(2, "unknown except class") == 0
        if not isinstance(t, Cls):
            self.throw("TypeError", "catching classes that do not inherit from BaseException is not allowed")
        return obj.cls.sub(t)

    def st_With(self, st, fr, a=False):
        return self.with_items(st.items, st, fr, a)

    def st_AsyncWith(self, st, fr):
        return self.with_items(st.items, st, fr, True)

    def with_items(self, items, st, fr, a):
        if not items:
            return self.block(st.body, fr)
        it = items[0]
        cm = self.ev(it.context_expr, fr)
        if isinstance(cm, Top):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, Top("with"), fr)
            return self.with_items(items[1:], st, fr, a)
        pre = "__a" if a else "__"
        v = self.callm(cm, pre + "enter__")
        if a:
            v = self.await_(v)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            r = self.with_items(items[1:], st, fr, a)
        except PyExc as e:
            x = self.callm(cm, pre + "exit__", e.obj.cls, e.obj, None)
            if a:
                x = self.await_(x)
            if self.truth(x):
                return None
            raise
        x = self.callm(cm, pre + "exit__", None, None, None)
        if a:
            self.await_(x)
        return r

    def st_FunctionDef(self, st, fr):
        f = self.mkfunc(st, fr, st.name)
        v = f
        for d in reversed(st.decorator_list):
            v = self.call(self.ev(d, fr), [v], {})
        self.setname(st.name, v, fr)

    st_AsyncFunctionDef = st_FunctionDef

    def mkfunc(self, node, fr, name):
        sc = fr.scope
        q = name
        if sc.kind == "class":
            q = sc.vars.get("__qualname__", "") + "." + name
        elif sc.func is not None:
            q = sc.func.qual + ".<locals>." + name
        cs = sc
        f = Func(node, cs, sc.mod, name, q)
        a = node.args
        f.defaults = [self.ev(d, fr) for d in a.defaults]
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                f.kwdefaults[k.arg] = self.ev(d, fr)
        if sc.kind == "class":
            f.clscell = sc.vars["__cell__"]
        elif sc.func is not None:
            f.clscell = sc.func.clscell
        return f

    def st_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.iterate(self.ev(b.value, fr)))
            else:
                bases.append(self.ev(b, fr))
        kws = {k.arg: self.ev(k.value, fr) for k in st.keywords}
        cell = {}
        q = st.name
        if fr.scope.kind == "class":
            q = fr.scope.vars["__qualname__"] + "." + st.name
        elif fr.scope.func is not None:
            q = fr.scope.func.qual + ".<locals>." + st.name
        ns = {"__module__": fr.scope.mod.name, "__qualname__": q, "__cell__": cell}
        sc = Scope("class", fr.scope.mod, parent=fr.scope, func=fr.scope.func, vars=ns)
        f2 = Frame(sc, fr.func, fr.file)
        f2.node = st
        self.frames.append(f2)
        try:
            self.block(st.body, f2)
        finally:
            self.frames.pop()
        doc = ast.get_docstring(st, clean=False)
        ns.setdefault("__doc__", doc)
        cls = self.make_class(st.name, bases, ns, kws)
        for d in reversed(st.decorator_list):
            cls = self.call(self.ev(d, fr), [cls], {})
        self.setname(st.name, cls, fr)

    def make_class(self, name, bases, ns, kws):
        bases = [b for b in bases if not isinstance(b, Top)] if any(isinstance(b, Top) for b in bases) else bases
        for b in bases:
            if not isinstance(b, Cls):
                raise Unsupported("base class %r" % (b,))
        if not bases:
            bases = [self.B.OBJECT]
        meta = kws.pop("metaclass", None)
        if meta is None:
            meta = self.B.TYPE
        if isinstance(meta, Cls):
            for b in bases:
                bm = b.meta or self.B.TYPE
                if bm.sub(meta):
                    meta = bm
        if isinstance(meta, Cls):
            nw = meta.find("__new__")
            if isinstance(nw, (Func, SMeth)):
                fn = nw.f if isinstance(nw, SMeth) else nw
                cls = self.call(fn, [meta, name, tuple(bases), ns], dict(kws))
            else:
                cls = self.type_new(meta, name, tuple(bases), ns, kws)
            ini = meta.find("__init__")
            if isinstance(ini, Func):
                self.call(ini, [cls, name, tuple(bases), ns], dict(kws))
            return cls
        return self.call(meta, [name, tuple(bases), ns], kws)

    def type_new(self, meta, name, bases, ns, kws=None):
        ns = dict(ns)
        cell = ns.pop("__cell__", None)
        if not bases:
            bases = (self.B.OBJECT,)
        cls = Cls(name, bases, ns, meta, mod=ns.get("__module__", "?"))
        for f in reversed(self.frames):
            if f.file:
                cls.file = f.file
                break
        if isinstance(cell, dict):
            cell["c"] = cls
        for k, v in list(ns.items()):
            if isinstance(v, Obj) and v.cls.find("__set_name__") is not None:
                self.callm(v, "__set_name__", cls, k)
        for b in cls.mro[1:]:
            h = b.ext.get("on_subclass")
            if h is not None:
                h(self, cls)
                break
        for b in cls.mro[1:]:
            if "__init_subclass__" in b.ns:
                f = b.ns["__init_subclass__"]
                f = f.f if isinstance(f, (CMeth, SMeth)) else f
                self.call(f, [cls], dict(kws or {}))
                break
        if self.class_hook is not None:
            self.class_hook(self, cls)
        return cls

    def st_Import(self, st, fr):
        for al in st.names:
            m = self.import_(al.name)
            if al.asname:
                self.setname(al.asname, m, fr)
            else:
                self.setname(al.name.split(".")[0], self.import_(al.name.split(".")[0]), fr)

    def st_ImportFrom(self, st, fr):
        if st.level:
            pkg = fr.scope.mod.ns.get("__package__", "")
            parts = pkg.split(".")
            if st.level > 1:
                parts = parts[:-(st.level - 1)]
            base = ".".join(parts)
            name = base + ("." + st.module if st.module else "")
        else:
            name = st.module
        if name == "__future__":
            return
        m = self.import_(name)
        for al in st.names:
            if al.name == "*":
                names = m.ns.get("__all__")
                if names is None:
                    names = [k for k in m.ns if not k.startswith("_")]
                for k in names:
                    self.setname(k, m.ns[k], fr)
                continue
            if al.name in m.ns:
                v = m.ns[al.name]
            elif isinstance(m, TopMod):
                v = Top(name + "." + al.name)
            else:
                sub = name + "." + al.name
                if m.file is not None or self.mod_path(name):
                    if self.mod_path(sub) is None:
                        self.throw("ImportError", "cannot import name '%s' from '%s'" % (al.name, name))
                    v = self.import_(sub)
                else:
                    v = self.models.attr(name, al.name)
            self.setname(al.asname or al.name, v, fr)

    def st_Global(self, st, fr):
        pass

    st_Nonlocal = st_Global

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                sc = fr.scope
                if sc.info is not None and sc.kind == "func" and t.id in sc.info.globals:
                    sc.mod.ns.pop(t.id, None)
                else:
                    while sc is not None and t.id not in sc.vars and sc.parent is not None:
                        sc = sc.parent
                    if t.id in sc.vars:
                        del sc.vars[t.id]
                    else:
                        self.throw("NameError", "name '%s' is not defined" % t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                self.delitem(o, self.ev_slice(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                self.delattr(o, t.attr)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    self.st_Delete(ast.Delete(targets=[x]), fr)

    def st_Match(self, st, fr):
        v = self.ev(st.subject, fr)
        for c in st.cases:
            if self.match(c.pattern, v, fr) and (c.guard is None or self.truth(self.ev(c.guard, fr))):
                return self.block(c.body, fr)
        return None

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.setname(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            if isinstance(v, Obj) and v.seq is not None:
                v = v.seq
            if not isinstance(v, (tuple, list)) or len(v) != len(p.patterns):
                return False
            return all(self.match(q, x, fr) for q, x in zip(p.patterns, v))
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance(v, self.ev(p.cls, fr))
        raise Unsupported("match pattern")

    # ------------------------------------------------------------------ names
    def name(self, n, fr):
        sc = fr.scope
        s = sc
        first = True
        while s is not None:
            if s.kind == "class":
                if first and n in s.vars:
                    return s.vars[n]
            elif s.kind == "mod":
                break
            else:
                if n in s.vars:
                    return s.vars[n]
                if s.info is not None:
                    if n in s.info.globals:
                        break
                    if n in s.info.locals:
                        if first or s.kind == "func":
                            self.throw("UnboundLocalError" if first else "NameError", "local variable '%s' referenced before assignment" % n)
            if s.kind != "comp":
                first = False
            s = s.parent
        ns = sc.mod.ns
        if n in ns:
            return ns[n]
        if n in self.builtins:
            return self.builtins[n]
        if n == "__class__" and sc.func is not None and sc.func.clscell:
            return sc.func.clscell["c"]
        self.throw("NameError", "name '%s' is not defined" % n)

    def setname(self, n, v, fr):
        sc = fr.scope
        while sc.kind == "comp" and n not in sc.info.locals:
            sc = sc.parent
        if sc.kind == "func" and sc.info is not None:
            if n in sc.info.globals:
                sc.mod.ns[n] = v
                return
            if n in sc.info.nonlocals:
                s = sc.parent
                while s is not None:
                    if s.kind != "class" and s.kind != "mod" and (n in s.vars or (s.info is not None and n in s.info.locals)):
                        s.vars[n] = v
                        return
                    s = s.parent
                raise Unsupported("nonlocal")
        sc.vars[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_slice(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Top):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Top("unpack"), fr)
                return
            if isinstance(v, (SBytes,)) and not star:
                if not self.ctx.eq0(lsub(self.ctx.blen(v), n)):
                    self.throw("ValueError", "wrong number of values to unpack")
            vs = list(self.iterate(v))
            if star:
                i = star[0]
                if len(vs) < n - 1:
                    self.throw("ValueError", "not enough values to unpack")
                k = len(vs) - (n - 1)
                for e, x in zip(t.elts[:i], vs[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, vs[i:i + k], fr)
                for e, x in zip(t.elts[i + 1:], vs[i + k:]):
                    self.assign(e, x, fr)
                return
            if len(vs) != n:
                self.throw("ValueError", "not enough values to unpack" if len(vs) < n else "too many values to unpack (expected %d)" % n)
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assignment target")

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fr):
        h = self.exprs.get(type(e))
        if h is None:
            raise Unsupported("expression " + type(e).__name__)
        self.steps += 1
        return h(e, fr)

    def ev_Constant(self, e, fr):
        return e.value

    def ev_Name(self, e, fr):
        return self.name(e.id, fr)

    def ev_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getattr(o, e.attr)

    def ev_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = self.name("super", fr)
            if f is self.builtins["super"]:
                return self.super0(fr)
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                if isinstance(v, SymSeq):
                    args.append(("*sym", v))
                    continue
                if isinstance(v, Top):
                    return self.call_top(f, "star args")
                if isinstance(f, Cls) and "clen" in f.ext and not args and isinstance(v, (SBytes, BArr)):
                    args.append(("*bytes", self.B.bval(v)))
                    continue
                args.extend(self.iterate(v))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, Top):
                    return self.call_top(f, "star kwargs")
                if isinstance(v, Obj):
                    v = self.todict(v)
                for kk, vv in v.items():
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        old = fr.node
        fr.node = e
        try:
            return self.call(f, args, kw)
        finally:
            fr.node = old

    def call_top(self, f, why):
        if isinstance(f, Top):
            return Top(f.why)
        raise Unsupported(why)

    def super0(self, fr):
        sc = fr.scope
        while sc is not None and sc.kind != "func":
            sc = sc.parent
        f = sc.func if sc is not None else None
        if f is None or not f.clscell or "c" not in f.clscell:
            raise Unsupported("super()")
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        # nested function: climb to the method that owns the first argument
        if not names and a.vararg:
            first = sc.vars[a.vararg.arg][0]
        else:
            while not names:
                sc = sc.parent
                while sc is not None and sc.kind != "func":
                    sc = sc.parent
                if sc is None:
                    raise Unsupported("super()")
                names = [x.arg for x in sc.func.node.args.posonlyargs + sc.func.node.args.args]
            first = sc.vars[names[0]]
        return self.mk_super(f.clscell["c"], first)

    def mk_super(self, cls, first):
        if isinstance(first, Cls):
            if first.sub(cls):
                return Super(cls, first, first)
            return Super(cls, first, first.meta or self.B.TYPE)
        return Super(cls, first, self.type(first))

    def ev_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(BIN[type(e.op)], a, b)

    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Top):
                return Top(v.why)
            return not self.truth(v)
        if isinstance(v, Top):
            return v
        if isinstance(v, Obj) and "int_value" in v.cls.ext:
            v = v.d["_value_"]
        if isinstance(v, Obj):
            m = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(e.op)]
            return self.callm(v, m)
        if isinstance(v, Lin):
            if isinstance(e.op, ast.USub):
                return pyint(lmul(v, -1))
            if isinstance(e.op, ast.UAdd):
                return v
            return pyint(ladd(lmul(v, -1), -1))
        if not isinstance(v, (int, float)):
            self.throw("TypeError", "bad operand type for unary operator")
        return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else self.host(lambda: ~v)

    def ev_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.ev(x, fr)
            t = self.truth(v)
            if t != isand:
                if isinstance(v, Top):
                    return t
                return v
        return self.ev(e.values[-1], fr)

    def ev_Compare(self, e, fr):
        a = self.ev(e.left, fr)
        n = len(e.ops)
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(c, fr)
            r = self.compare(type(op), a, b)
            if i == n - 1:
                return r
            if not self.truth(r):
                return False if isinstance(r, Top) else r
            a = b

    def ev_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def ev_Tuple(self, e, fr):
        return tuple(self.elts(e, fr))

    def ev_List(self, e, fr):
        return self.elts(e, fr)

    def ev_Set(self, e, fr):
        return self.B.mkset(self.elts(e, fr))

    def elts(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def ev_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.ev(v, fr)
                d.update(self.todict(m))
            else:
                kk = self.B.dkey(d, self.hkey(self.ev(k, fr)))
                d[kk] = self.ev(v, fr)
        return d

    def todict(self, m):
        if isinstance(m, dict):
            return m
        if isinstance(m, Obj) and isinstance(m.seq, dict):
            return m.seq
        if isinstance(m, Obj) and m.cls.find("keys") is not None:
            return {k: self.getitem(m, k) for k in self.iterate(self.callm(m, "keys"))}
        raise Unsupported("mapping")

    def hkey(self, k):
        if isinstance(k, (list, dict, set, BArr)):
            self.throw("TypeError", "unhashable type")
        if isinstance(k, Top):
            raise Unsupported("unknown key")
        return k

    def ev_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev_slice(e.slice, fr))

    def ev_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, fr) for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)

    def ev_Slice(self, s, fr):
        return self.ev_slice(s, fr)

    def ev_Starred(self, e, fr):
        raise Unsupported("starred")

    def ev_Lambda(self, e, fr):
        return self.mkfunc(e, fr, "<lambda>")

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.setname(e.target.id, v, fr)
        return v

    def ev_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                parts.append(self.ev_FormattedValue(x, fr))
        return self.sjoin(parts)

    def ev_FormattedValue(self, x, fr):
        v = self.ev(x.value, fr)
        spec = "" if x.format_spec is None else self.ev(x.format_spec, fr)
        if x.conversion == 114:
            v = self.repr(v)
        elif x.conversion == 115:
            v = self.str(v)
        elif x.conversion == 97:
            v = self.repr(v)
        return self.format(v, spec)

    def ev_Await(self, e, fr):
        v = self.ev(e.value, fr)
        old = fr.node
        fr.node = e
        try:
            return self.await_(v)
        finally:
            fr.node = old

    def ev_Yield(self, e, fr):
        v = None if e.value is None else self.ev(e.value, fr)
        return self.cur_gen(fr).yield_(v)

    def ev_YieldFrom(self, e, fr):
        g = self.cur_gen(fr)
        it = self.ev(e.value, fr)
        if isinstance(it, Gen):
            while True:
                m = it.resume("send", None)
                if m[0] == "end":
                    return m[1]
                g.yield_(m[1])
        for v in self.iterate(it):
            g.yield_(v)
        return None

    def cur_gen(self, fr):
        if fr.gen is None:
            raise Unsupported("yield outside generator frame")
        return fr.gen

    def ev_ListComp(self, e, fr):
        return list(self.comp(e, fr, lambda f: self.ev(e.elt, f)))

    def ev_SetComp(self, e, fr):
        return self.B.mkset(self.comp(e, fr, lambda f: self.ev(e.elt, f)))

    def ev_DictComp(self, e, fr):
        d = {}
        for k, v in self.comp(e, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f))):
            d[self.B.dkey(d, self.hkey(k))] = v
        return d

    def ev_GeneratorExp(self, e, fr):
        src = self.ev(e.generators[0].iter, fr)
        return It(self.comp(e, fr, lambda f: self.ev(e.elt, f), src))

    def comp(self, e, fr, elt, src=None):
        inf = getattr(e, "_info", None)
        if inf is None:
            inf = Info()
            inf.locals = set()
            inf.globals = inf.nonlocals = set()
            for g in e.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        inf.locals.add(n.id)
            e._info = inf
        sc = Scope("comp", fr.scope.mod, parent=fr.scope, func=fr.scope.func, info=inf)
        f2 = Frame(sc, fr.func, fr.file)
        f2.node = e
        f2.gen = fr.gen
        gens = e.generators

        def rec(i):
            if i == len(gens):
                yield elt(f2)
                return
            g = gens[i]
            s = src if (i == 0 and src is not None) else self.ev(g.iter, f2 if i else fr)
            for v in self.iterate(s):
                self.assign(g.target, v, f2)
                if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                    yield from rec(i + 1)
        return rec(0)

    # ------------------------------------------------------------------ calls
    def callm(self, o, name, *args, **kw):
        return self.call(self.getattr(o, name), list(args), kw)

    def call(self, f, args, kw):
        self.calls += 1
        if isinstance(f, BMeth):
            if isinstance(f.f, Nat):
                if isinstance(f.f, ANat):
                    return Coro(f.f.name, lambda: f.f.fn(self, [f.o] + list(args), kw))
                return f.f.fn(self, [f.o] + list(args), kw)
            return self.call(f.f, [f.o] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Cls):
            return self.call_cls(f, args, kw)
        if isinstance(f, Nat):
            if isinstance(f, ANat):
                return Coro(f.name, lambda: f.fn(self, list(args), kw))
            return f.fn(self, list(args), kw)
        if isinstance(f, Top):
            self.event("topcall", f.why, tuple(args))
            return Top(f.why + "()")
        if isinstance(f, Obj):
            m = f.cls.find("__call__")
            if m is not None:
                return self.call(self.bind(m, f), args, kw)
        if isinstance(f, (SMeth, CMeth)):
            return self.call(f.f, args, kw)
        self.B.unmodelled(f, "call")
        self.throw("TypeError", "object is not callable")

    def bindargs(self, f, args, kw):
        a = f.node.args
        pos = a.posonlyargs + a.args
        vars = {}
        kw = dict(kw)
        sym = None
        if args and isinstance(args[-1], tuple) and len(args[-1]) == 2 and args[-1][0] == "*sym":
            sym = args[-1][1]
            args = args[:-1]
        n = len(pos)
        for p, v in zip(pos, args):
            vars[p.arg] = v
        if len(args) > n:
            if a.vararg is None:
                self.throw("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, n, len(args)))
            vars[a.vararg.arg] = tuple(args[n:])
        elif a.vararg is not None:
            vars[a.vararg.arg] = ()
        if sym is not None:
            if a.vararg is None or len(args) < n:
                raise Unsupported("symbolic star arguments")
            pre = vars[a.vararg.arg]
            vars[a.vararg.arg] = SymSeq(pyint(ladd(sym.n, len(pre))), sym.rep)
        po = {p.arg for p in a.posonlyargs}
        extra = {}
        names = {p.arg for p in pos if p.arg not in po} | {p.arg for p in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in vars:
                    self.throw("TypeError", "%s() got multiple values for argument '%s'" % (f.name, k))
                vars[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            vars[a.kwarg.arg] = extra
        elif extra:
            self.throw("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, next(iter(extra))))
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in vars:
                j = i - (n - nd)
                if j < 0:
                    self.throw("TypeError", "%s() missing required positional argument: '%s'" % (f.name, p.arg))
                vars[p.arg] = f.defaults[j]
        for p in a.kwonlyargs:
            if p.arg not in vars:
                if p.arg not in f.kwdefaults:
                    self.throw("TypeError", "%s() missing required keyword-only argument: '%s'" % (f.name, p.arg))
                vars[p.arg] = f.kwdefaults[p.arg]
        return vars

    def call_func(self, f, args, kw):
        node = f.node
        inf = fn_info(node)
        vars = self.bindargs(f, args, kw)
        sc = Scope("func", f.mod, parent=f.scope, func=f, info=inf, vars=vars)
        fr = Frame(sc, f, f.mod.file)
        fr.node = node
        isasync = isinstance(node, ast.AsyncFunctionDef)
        if inf.isgen:
            def run(g):
                fr.gen = g
                return self.run_frame(f, fr)
            g = Gen(self, run, f.qual)
            g.isasync = isasync
            return g
        if isasync:
            return Coro(f.qual, lambda: self.run_frame(f, fr))
        return self.run_frame(f, fr)

    def run_frame(self, f, fr):
        if len(self.frames) > self.MAXDEPTH:
            self.throw("RecursionError", "maximum recursion depth exceeded")
        self.funcs_seen.add((fr.file, f.qual))
        d = self.recur.setdefault(f.node, []) if fr.gen is None else []
        d.append(self.ctx.exec_forks)
        if len(d) > self.ctx.K and len(set(d)) > self.ctx.K + 1:      # recursion that keeps asking new questions: bounded like a loop
            d.pop()
            raise Cut("recursion unrolling bound")
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            r = self.block(f.node.body, fr)
            return r[1] if r is not None and r[0] == "ret" else None
        finally:
            self.frames.pop()
            d.pop()

    def await_(self, v):
        if isinstance(v, Coro):
            if v.done:
                self.throw("RuntimeError", "cannot reuse already awaited coroutine")
            v.done = True
            return v.thunk()
        if isinstance(v, Top):
            self.event("suspend", "unknown awaitable %s" % v.why)
            return Top(v.why)
        if isinstance(v, Obj):
            if v.ext and "result" in v.ext:          # future / task
                self.event("suspend", v.cls.name)
                r = v.ext["result"]
                if r[0] == "exc":
                    raise PyExc(r[1])
                return r[1]
            m = v.cls.find("__await__")
            if m is not None:
                g = self.call(self.bind(m, v), [], {})
                while True:
                    x = g.resume("send", None) if isinstance(g, Gen) else None
                    if x is None:
                        raise Unsupported("__await__")
                    if x[0] == "end":
                        return x[1]
                    self.event("suspend", "yield in __await__")
        self.throw("TypeError", "object can't be used in 'await' expression")

    def call_cls(self, cls, args, kw):
        meta = cls.meta
        if meta is not None and meta is not self.B.TYPE:
            m = meta.find("__call__")
            if isinstance(m, Func):
                return self.call(m, [cls] + list(args), kw)
            if isinstance(m, Nat) and m is not self.B.TYPE.ns.get("__call__"):
                return m.fn(self, [cls] + list(args), kw)
        return self.type_call(cls, args, kw)

    def type_call(self, cls, args, kw):
        if cls is self.B.TYPE and len(args) == 1:
            return self.type(args[0])
        if cls.ctor is not None:
            return cls.ctor(self, cls, list(args), dict(kw))
        for b in cls.mro:
            if b.ctor is not None and b.ext.get("inherit_ctor"):
                return b.ctor(self, cls, list(args), dict(kw))
            if b.ctor is not None:
                raise Unsupported("subclass of builtin %s" % b.name)
        if cls.sub(self.B.TYPE):
            return self.make_class(args[0], list(args[1]), dict(args[2]), dict(kw, metaclass=cls))
        self.check_abstract(cls)
        nw = cls.find("__new__")
        nw = nw.f if isinstance(nw, (SMeth, CMeth)) else nw
        o = self.call(nw, [cls] + list(args), kw)
        if isinstance(o, Obj) and o.cls.sub(cls):
            ini = o.cls.find("__init__")
            if ini is not None:
                if ini is self.B.OBJECT.ns["__init__"] and isinstance(nw, Func):
                    return o
                r = self.call(self.bind(ini, o), args, kw)
                if r is not None and not isinstance(r, Top):
                    self.throw("TypeError", "__init__() should return None")
        return o

    def check_abstract(self, cls):
        if cls.meta is not None and cls.meta.sub(self.B.ABCMETA):
            bad = []
            seen = set()
            for c in cls.mro:
                for k, v in c.ns.items():
                    if k in seen:
                        continue
                    seen.add(k)
                    if self.is_abstract(v):
                        bad.append(k)
            if bad:
                self.throw("TypeError", "Can't instantiate abstract class %s without an implementation for %s" % (cls.name, ", ".join(sorted(bad))))

    def is_abstract(self, v):
        if isinstance(v, Func):
            return v.abstract
        if isinstance(v, (SMeth, CMeth)):
            return self.is_abstract(v.f)
        if isinstance(v, Prop):
            return self.is_abstract(v.g) or self.is_abstract(v.s)
        return False

    # ------------------------------------------------------------------ attributes
    def bind(self, v, o, cls=None):
        """descriptor binding of class attribute v accessed through instance o"""
        if isinstance(v, (Func, NMeth)):
            return BMeth(v, o)
        if isinstance(v, SMeth):
            return v.f
        if isinstance(v, CMeth):
            return BMeth(v.f, cls or self.type(o))
        if isinstance(v, Prop):
            if v.g is None:
                self.throw("AttributeError", "unreadable attribute")
            return self.call(v.g, [o], {})
        if isinstance(v, NDesc):
            return v.get(self, o)
        if isinstance(v, Obj) and v.cls.find("__get__") is not None:
            return self.callm(v, "__get__", o, cls or self.type(o))
        return v

    def lookup(self, o, name, dflt=None):
        try:
            return self.getattr(o, name)
        except PyExc as e:
            if e.obj.cls.sub(self.exc["AttributeError"]):
                return dflt
            raise

    def getattr(self, o, name):
        if isinstance(o, Obj):
            cls = o.cls
            v = None
            found = False
            for c in cls.mro:
                if name in c.ns:
                    v = c.ns[name]
                    found = True
                    break
            try:
                if found and (isinstance(v, (Prop, NDesc)) or (isinstance(v, Obj) and v.cls.find("__set__") is not None)):
                    return self.bind(v, o)
                if name in o.d:
                    return o.d[name]
                if found:
                    return self.bind(v, o)
                if name == "__class__":
                    return cls
                if name == "__dict__":
                    return o.d
                x = self.B.obj_attr(o, name)
                if x is not None:
                    return x
                ga = cls.find("__getattribute__")
                if isinstance(ga, Func):
                    return self.call(ga, [o, name], {})
            except PyExc as e:
                if not e.obj.cls.sub(self.exc["AttributeError"]) or cls.find("__getattr__") is None:
                    raise
            g = cls.find("__getattr__")
            if g is not None:
                return self.call(self.bind(g, o), [name], {})
            self.B.unmodelled(o, "attribute " + name)
            self.throw("AttributeError", "'%s' object has no attribute '%s'" % (cls.name, name))
        if isinstance(o, Mod):
            if name in o.ns:
                return o.ns[name]
            if isinstance(o, TopMod):
                return Top(o.name + "." + name)
            if o.file is None:
                return self.models.attr(o.name, name)
            if name == "__dict__":
                return o.ns
            self.throw("AttributeError", "module '%s' has no attribute '%s'" % (o.name, name))
        if isinstance(o, Cls):
            return self.cls_attr(o, name)
        if isinstance(o, Super):
            mro = o.objcls.mro
            i = mro.index(o.cls) + 1
            for c in mro[i:]:
                if name in c.ns:
                    v = c.ns[name]
                    if name == "__new__":
                        return v.f if isinstance(v, SMeth) else v
                    if isinstance(o.obj, Cls):
                        if o.objcls is o.obj:          # classmethod use
                            if isinstance(v, CMeth):
                                return BMeth(v.f, o.obj)
                            return v.f if isinstance(v, SMeth) else v
                        return self.bind(v, o.obj)
                    return self.bind(v, o.obj)
            if isinstance(o.obj, Obj):
                x = self.B.obj_attr(o.obj, name)
                if x is not None:
                    return x
            self.throw("AttributeError", "'super' object has no attribute '%s'" % name)
        if isinstance(o, Top):
            return Top(o.why + "." + name)
        if isinstance(o, Func):
            if name in o.d:
                return o.d[name]
            if name == "__name__":
                return o.name
            if name == "__qualname__":
                return o.qual
            if name == "__doc__":
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == "__module__":
                return o.mod.name
            if name == "__dict__":
                return o.d
            if name == "__wrapped__":
                self.throw("AttributeError", name)
            if name == "__isabstractmethod__":
                return o.abstract
            if name == "__get__":
                return Nat("__get__", lambda I, a, k: BMeth(o, a[0]) if a[0] is not None else o)
            if name == "__defaults__":
                return tuple(o.defaults)
            if name == "__call__":
                return o
            if name == "__code__":
                return Top("__code__")
            self.throw("AttributeError", "'function' object has no attribute '%s'" % name)
        if isinstance(o, BMeth):
            if name == "__self__":
                return o.o
            if name == "__func__":
                return o.f
            return self.getattr(o.f, name)
        if isinstance(o, Nat):
            if name in o.d:
                return o.d[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name in ("__doc__", "__wrapped__"):
                return None
            self.throw("AttributeError", name)
        if isinstance(o, Prop):
            if name == "setter":
                return Nat("setter", lambda I, a, k: Prop(o.g, a[0], o.dl))
            if name == "getter":
                return Nat("getter", lambda I, a, k: Prop(a[0], o.s, o.dl))
            if name == "deleter":
                return Nat("deleter", lambda I, a, k: Prop(o.g, o.s, a[0]))
            if name in ("fget", "fset", "fdel"):
                return {"fget": o.g, "fset": o.s, "fdel": o.dl}[name]
        if isinstance(o, NDesc):
            if name in ("offset", "size") and hasattr(o, "offset"):
                return getattr(o, name)
            return Top("descriptor")
        return self.B.host_attr(o, name)

    def cls_attr(self, o, name):
        meta = o.meta or self.B.TYPE
        mv = None
        for c in meta.mro:
            if name in c.ns:
                mv = c.ns[name]
                break
        if isinstance(mv, (Prop, NDesc)):
            return self.bind(mv, o)
        for c in o.mro:
            if name in c.ns:
                v = c.ns[name]
                if isinstance(v, SMeth):
                    return v.f
                if isinstance(v, CMeth):
                    return BMeth(v.f, o)
                if isinstance(v, Obj) and v.cls.find("__get__") is not None:
                    return self.callm(v, "__get__", None, o)
                return v
        if mv is not None:
            return self.bind(mv, o)
        if name == "__name__":
            return o.name
        if name == "__qualname__":
            return o.ns.get("__qualname__", o.name)
        if name == "__module__":
            return o.mod
        if name == "__mro__":
            return tuple(o.mro)
        if name == "__bases__":
            return o.bases
        if name == "__dict__":
            return o.ns
        if name == "__class__":
            return meta
        if name == "__subclasses__":
            return Top("__subclasses__")
        x = self.B.cls_attr(o, name)
        if x is not None:
            return x
        if self.lookup_meta_getattr(meta) is not None:
            return self.call(self.lookup_meta_getattr(meta), [o, name], {})
        self.throw("AttributeError", "type object '%s' has no attribute '%s'" % (o.name, name))

    def lookup_meta_getattr(self, meta):
        return meta.find("__getattr__")

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            sa = o.cls.find("__setattr__")
            if isinstance(sa, Func):
                self.call(sa, [o, name, v], {})
                return
            self.setattr_plain(o, name, v)
            return
        if isinstance(o, Super):
            for c in o.objcls.mro[o.objcls.mro.index(o.cls) + 1:]:
                if name in c.ns and isinstance(c.ns[name], Prop):
                    self.call(c.ns[name].s, [o.obj, v], {})
                    return
            self.setattr_plain(o.obj, name, v)
            return
        if isinstance(o, Cls):
            sa = (o.meta or self.B.TYPE).find("__setattr__")
            if isinstance(sa, Func):
                self.call(sa, [o, name, v], {})
                return
            o.ns[name] = v
            if name == "_fields_":
                for b in o.mro[1:]:
                    if b.ext.get("on_subclass"):
                        b.ext["on_subclass"](self, o)
                        break
            return
        if isinstance(o, Mod):
            o.ns[name] = v
            return
        if isinstance(o, (Func, Nat)):
            if isinstance(o, Func) and name == "__name__":
                o.name = v
            elif isinstance(o, Func) and name == "__qualname__":
                o.d["__qualname__"] = v
            elif isinstance(o, Func) and name == "__isabstractmethod__":
                o.abstract = bool(v)
            else:
                o.d[name] = v
            return
        if isinstance(o, Top):
            self.event("topset", o.why, name, v)
            return
        self.throw("AttributeError", "object has no attribute '%s'" % name)

    def setattr_plain(self, o, name, v):
        if isinstance(o, Cls):
            o.ns[name] = v
            return
        for c in o.cls.mro:
            if name in c.ns:
                d = c.ns[name]
                if isinstance(d, Prop):
                    if d.s is None:
                        self.throw("AttributeError", "property '%s' of '%s' object has no setter" % (name, o.cls.name))
                    self.call(d.s, [o, v], {})
                    return
                if isinstance(d, NDesc):
                    if d.set is None:
                        self.throw("AttributeError", "can't set attribute '%s'" % name)
                    d.set(self, o, v)
                    return
                if isinstance(d, Obj) and d.cls.find("__set__") is not None:
                    self.callm(d, "__set__", o, v)
                    return
                break
        if o.cls.ext.get("frozen"):
            self.throw("AttributeError", "can't set attribute")
        o.d[name] = v

    # ------------------------------------------------------------------ delegation to the operator tables
    def truth(self, v):
        return self.B.truth(v)

    def eq(self, a, b):
        return self.B.eq(a, b)

    def compare(self, op, a, b):
        return self.B.compare(op, a, b)

    def binop(self, op, a, b):
        return self.B.binop(op, a, b)

    def getitem(self, o, k):
        return self.B.getitem(o, k)

    def setitem(self, o, k, v):
        return self.B.setitem(o, k, v)

    def delattr(self, o, name):
        if isinstance(o, Obj):
            f = o.cls.find(name)
            if isinstance(f, Prop):
                if f.dl is None:
                    self.throw("AttributeError", "property '%s' has no deleter" % name)
                self.call(f.dl, [o], {})
                return
            da = o.cls.find("__delattr__")
            if isinstance(da, Func):
                self.call(da, [o, name], {})
                return
        if isinstance(o, (Obj, Func, Nat)) and name in o.d:
            del o.d[name]
        elif isinstance(o, (Cls, Mod)) and name in o.ns:
            del o.ns[name]
        elif isinstance(o, Top):
            raise Unsupported("attribute of an unknown object deleted")
        else:
            self.throw("AttributeError", name)

    def delitem(self, o, k):
        return self.B.delitem(o, k)

    def iterate(self, v):
        return self.B.iterate(v)

    def type(self, v):
        return self.B.type_of(v)

    def isinstance(self, v, t):
        return self.B.isinstance(v, t)

    def len(self, v):
        return self.B.len(v)

    def str(self, v):
        return self.B.str(v)

    def repr(self, v):
        return self.B.repr(v)

    def format(self, v, spec):
        return self.B.format(v, spec)

    def sjoin(self, parts):
        return self.B.sjoin(parts)

    def tobytes(self, v, strict=False):
        return self.B.tobytes(v, strict)
