"""Abstract semantics of ctypes: layouts, typed views of abstract byte memory, narrowing stores, memmove bounds."""
from .domain import *
from .interp import (BList, BArr, BMeth, CMeth, Cls, Deque, Func, MView, Mod, NDesc, NMeth, Nat, Obj, Prop, PyExc, SMeth, SStr, SymSeq,
                     Top, Unsupported, BYTESY)

INTTYPES = {
    "c_uint8": (1, False), "c_int8": (1, True), "c_ubyte": (1, False), "c_byte": (1, True),
    "c_uint16": (2, False), "c_int16": (2, True), "c_ushort": (2, False), "c_short": (2, True),
    "c_uint32": (4, False), "c_int32": (4, True), "c_uint": (4, False), "c_int": (4, True),
    "c_uint64": (8, False), "c_int64": (8, True), "c_ulong": (8, False), "c_long": (8, True),
    "c_ulonglong": (8, False), "c_longlong": (8, True), "c_size_t": (8, False), "c_ssize_t": (8, True),
}
CANON = {"c_uint8": "c_ubyte", "c_int8": "c_byte", "c_uint16": "c_ushort", "c_int16": "c_short", "c_uint32": "c_uint", "c_int32": "c_int",
         "c_uint64": "c_ulong", "c_int64": "c_long", "c_ulonglong": "c_ulong", "c_longlong": "c_long", "c_size_t": "c_ulong",
         "c_ssize_t": "c_long"}


class CField(NDesc):
    def __init__(self, get, set, offset, size):
        NDesc.__init__(self, get, set)
        self.offset, self.size = offset, size


class CTypes:
    def __init__(self, I):
        self.I = I
        self.ctx = I.ctx
        B = I.B
        self.arrays = []
        self.ns = {}
        self.simple = Cls("_SimpleCData", (B.OBJECT,), meta=B.TYPE, mod="ctypes")
        self.simple.ext["on_subclass"] = self.on_simple_sub
        for n in INTTYPES:
            if n in CANON:
                continue
            self.ns[n] = self.mk_int(n, *INTTYPES[n])
        for n, c in CANON.items():
            self.ns[n] = self.ns[c]
        for n, size in (("c_char", 1), ("c_bool", 1), ("c_void_p", 8), ("c_char_p", 8), ("c_float", 4), ("c_double", 8), ("c_wchar", 4)):
            c = Cls(n, (self.simple,), meta=B.TYPE, mod="ctypes")
            c.ext.update(ctype="other" if n != "c_char" else "char", size=size, align=size)
            c.ctor = self.ctor_other
            c.native = True
            self.ns[n] = c
        self.array = Cls("Array", (B.OBJECT,), meta=B.TYPE, mod="_ctypes")
        self.struct = Cls("Structure", (B.OBJECT,), meta=B.TYPE, mod="_ctypes")
        self.le = Cls("LittleEndianStructure", (self.struct,), meta=B.TYPE, mod="_ctypes")
        self.be = Cls("BigEndianStructure", (self.struct,), meta=B.TYPE, mod="_ctypes")
        self.union = Cls("Union", (B.OBJECT,), meta=B.TYPE, mod="_ctypes")
        for c in (self.struct, self.le, self.be):
            c.ext["on_subclass"] = self.on_struct
            c.ext["ctype"] = "struct"
            c.native = True
        self.struct.ns["__new__"] = Nat("Structure.__new__", self.struct_new)
        self.struct.ns["__init__"] = NMeth("Structure.__init__", self.struct_init)
        self.struct.ns["from_buffer_copy"] = CMeth(Nat("from_buffer_copy", self.from_buffer_copy))
        self.struct.ns["from_buffer"] = CMeth(Nat("from_buffer", self.from_buffer))
        self.simple.ns["from_buffer_copy"] = CMeth(Nat("from_buffer_copy", self.from_buffer_copy))
        self.simple.ns["from_buffer"] = CMeth(Nat("from_buffer", self.from_buffer))
        self.array.ns["from_buffer_copy"] = CMeth(Nat("from_buffer_copy", self.from_buffer_copy))
        self.array.ns["from_buffer"] = CMeth(Nat("from_buffer", self.from_buffer))
        self.ns.update(Array=self.array, Structure=self.le, LittleEndianStructure=self.le, BigEndianStructure=self.be,
                       Union=self.union, sizeof=Nat("sizeof", lambda I, a, k: self.sizeof(a[0])),
                       addressof=Nat("addressof", lambda I, a, k: self.addressof(a[0])),
                       memmove=Nat("memmove", lambda I, a, k: self.memmove(*a, **k)),
                       memset=Nat("memset", lambda I, a, k: self.memset(*a)),
                       string_at=Nat("string_at", lambda I, a, k: self.string_at(*a, **k)),
                       create_string_buffer=Nat("create_string_buffer", lambda I, a, k: self.create_string_buffer(*a, **k)),
                       byref=Nat("byref", lambda I, a, k: self.byref(*a)), pointer=Nat("pointer", lambda I, a, k: self.byref(*a)),
                       cast=Nat("cast", lambda I, a, k: a[0]), POINTER=Nat("POINTER", lambda I, a, k: Top("POINTER")),
                       ArgumentError=Cls("ArgumentError", (I.B.exc["Exception"],), meta=B.TYPE, mod="ctypes"),
                       alignment=Nat("alignment", lambda I, a, k: (a[0] if isinstance(a[0], Cls) else a[0].cls).ext.get("align", 1)))
        self.ns["c_buffer"] = self.ns["create_string_buffer"]
        self.addrcls = Cls("int", (B.types["int"],), meta=B.TYPE)
        self.addrcls.ns["__add__"] = NMeth("add", lambda I, a, k: self.addr_add(a[0], a[1], 1))
        self.addrcls.ns["__radd__"] = NMeth("add", lambda I, a, k: self.addr_add(a[0], a[1], 1))
        self.addrcls.ns["__sub__"] = NMeth("sub", lambda I, a, k: self.addr_add(a[0], a[1], -1))
        self.refcls = Cls("CArgObject", (B.OBJECT,), meta=B.TYPE)
        self.refcls.ns["contents"] = NDesc(lambda I, o: o.ext["ref"])

    # ------------------------------------------------------------ simple types
    def mk_int(self, n, size, signed, be=False):
        c = Cls(n, (self.simple,), meta=self.I.B.TYPE, mod="ctypes")
        c.ext.update(ctype="int", size=size, align=size, signed=signed, be=be)
        c.ctor = self.ctor_int
        c.native = True
        c.ns["value"] = NDesc(lambda I, o: self.load(o.cls, o.mem, lin(o.off)),
                              lambda I, o, v: self.store(o.cls, o.mem, lin(o.off), v, o.cls.name))
        if size > 1 and not be:
            c.ext["__ctype_be__"] = self.mk_int(n, size, signed, True)
            c.ns["__ctype_be__"] = c.ext["__ctype_be__"]
            c.ns["__ctype_le__"] = c
        return c

    def on_simple_sub(self, I, cls):
        b = cls.bases[0]
        if b.ext.get("ctype"):
            cls.ext.update({k: v for k, v in b.ext.items() if k != "on_subclass"})
            cls.ctor = b.ctor

    def ctor_int(self, I, cls, a, k):
        o = Obj(cls)
        o.mem, o.off = BArr(bytes(cls.ext["size"])), 0
        if a:
            self.store(cls, o.mem, Lin(0), a[0], cls.name)
        return o

    def ctor_other(self, I, cls, a, k):
        o = Obj(cls)
        o.mem, o.off = BArr(bytes(cls.ext["size"])), 0
        o.d["value"] = a[0] if a else None
        if cls.ext["ctype"] == "char" and a and isinstance(a[0], BYTESY):
            o.mem.v = I.B.bval(a[0])
        return o

    def slot(self, mem, off, n):
        return self.ctx.bslice(mem.v, lin(off), ladd(lin(off), n))

    def put(self, mem, off, b):
        ctx = self.ctx
        off = lin(off)
        full = mem.v
        n = ctx.blen(b)
        mem.v = ctx.cat([ctx.bslice(full, Lin(0), off), b, ctx.bslice(full, ladd(off, n), ctx.blen(full))])

    def load(self, cls, mem, off):
        k = cls.ext.get("ctype")
        if k == "int":
            b = self.slot(mem, off, cls.ext["size"])
            return self.ctx.dec_be(b, cls.ext["signed"]) if cls.ext["be"] else self.ctx.dec(b, cls.ext["signed"])
        if k == "char":
            return self.slot(mem, off, 1)
        if k == "other":
            return Top(cls.name)
        if k == "array" and cls.ext["elem"].ext["ctype"] == "char":
            return self.nul(self.slot(mem, off, cls.ext["size"]))
        o = Obj(cls)
        o.mem, o.off = mem, lin(off)
        return o

    def nul(self, b):
        """bytes up to the first NUL"""
        ctx = self.ctx
        b = ctx.renorm(b)
        if isinstance(b, bytes):
            return b.split(b"\0", 1)[0]
        a = ("nulcut", b)
        return SBytes([("s", a, Lin(0), latom(("len", a)))])

    def intval(self, v, what):
        I = self.I
        if isinstance(v, Obj) and v.cls.ext.get("ctype") == "int":
            return self.load(v.cls, v.mem, lin(v.off))
        v = I.B.unwrap(v)
        if isinstance(v, Obj) and v.cls.find("__index__") is not None:
            v = I.callm(v, "__index__")
        if isinstance(v, Top):
            raise Unsupported("unknown value stored in ctypes field %s" % what)
        if not isinstance(v, (int, Lin)):
            I.throw("TypeError", "'%s' object cannot be interpreted as an integer" % getattr(I.type(v), "name", "?"))
        return v

    def fit(self, v, bits, signed, what):
        """value stored in a field of the given width; ctypes truncates silently -> 'trunc' event"""
        ctx = self.ctx
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if isinstance(v, int):
            v = int(v)
            if lo <= v <= hi:
                return v
            self.I.event("trunc", what, v, bits)
            v &= (1 << bits) - 1
            return v - (1 << bits) if signed and v > hi else v
        if ctx.known_le0(lsub(v, hi)) is not True or ctx.known_le0(lsub(lin(lo), v)) is not True:
            if not ctx.le(v, hi) or not ctx.le(lin(lo), v):
                self.I.event("trunc", what, v, bits)
                return pyint(latom(("op", "wrap", ctx.norm(v), lin(bits))))
        return v

    def store(self, cls, mem, off, v, what):
        I, ctx = self.I, self.ctx
        k = cls.ext.get("ctype")
        if k == "int":
            v = self.intval(v, what)
            n = cls.ext["size"]
            v = self.fit(v, 8 * n, cls.ext["signed"], what)
            self.put(mem, off, ctx.be_bytes(lin(v), n) if cls.ext["be"] else ctx.le_bytes(lin(v), n))
            return
        if k == "char":
            b = I.B.bufferlike(v)
            if b is None or not ctx.eq0(lsub(ctx.blen(b), 1)):
                I.throw("TypeError", "one character bytes, bytearray or integer expected")
            self.put(mem, off, b)
            return
        if k in ("array", "struct"):
            if isinstance(v, Obj) and v.cls.ext.get("ctype") == k and self.same_type(v.cls, cls):
                self.put(mem, off, self.raw(v))
                return
            if k == "array" and cls.ext["elem"].ext["ctype"] == "char" and isinstance(v, (bytes, SBytes)):
                n = lin(cls.ext["size"])
                if not ctx.le(ctx.blen(v), n):
                    I.throw("ValueError", "bytes too long")
                pad = self.slot(mem, ladd(lin(off), ctx.blen(v)), lsub(n, ctx.blen(v)))
                if pad != b"":
                    self.put(mem, off, ctx.cat([v, b"\0"]) if isinstance(pad, bytes) else v)
                else:
                    self.put(mem, off, v)
                return
            if isinstance(v, tuple):
                tmp = I.call(cls, list(v), {})
                self.put(mem, off, self.raw(tmp))
                return
            if isinstance(v, Top):
                raise Unsupported("unknown value stored in ctypes field %s" % what)
            I.throw("TypeError", "incompatible types, %s instance instead of %s instance" % (getattr(I.type(v), "name", "?"), cls.name))
        if k == "other":
            return
        raise Unsupported("ctypes store")

    def same_type(self, a, b):
        if a is b or b in a.mro:
            return True
        if a.ext.get("ctype") == "array" and b.ext.get("ctype") == "array" and a.ext["elem"] is b.ext["elem"]:
            return self.ctx.eq0(lsub(lin(a.ext["clen"]), lin(b.ext["clen"])))
        return False

    # ------------------------------------------------------------ arrays
    def array_type(self, elem, n):
        I, ctx = self.I, self.ctx
        if isinstance(n, bool):
            n = int(n)
        l = ctx.norm(lin(n))
        if ctx.le0(ladd(l, 1)):
            I.throw("ValueError", "Array length must be >= 0, not %s" % show_lin(l))
        l = ctx.norm(l)
        for (e, m, c) in self.arrays:
            if e is elem and ctx.norm(m) == l:
                return c
        c = Cls("%s_Array_%s" % (elem.name, show_lin(l)), (self.array,), meta=I.B.TYPE, mod="ctypes")
        es = elem.ext["size"]
        size = lmul(l, es) if isinstance(es, int) else None
        if size is None:
            s = ctx.norm(lin(es))
            if not s.t:
                size = lmul(l, s.c)
            elif not l.t:
                size = lmul(s, l.c)
            else:
                raise Unsupported("array of symbolic-size elements")
        c.ext.update(ctype="array", elem=elem, clen=pyint(l), size=pyint(size), align=elem.ext.get("align", 1))
        c.ctor = self.ctor_array
        c.ns["_length_"] = pyint(l)
        c.ns["_type_"] = elem
        if elem.ext["ctype"] == "char":
            c.ns["raw"] = NDesc(lambda I, o: self.raw_cell(o), lambda I, o, v: self.put(o.mem, o.off, I.B.tobytes(v)))
            c.ns["value"] = NDesc(lambda I, o: self.nul(self.raw(o)), lambda I, o, v: self.store(o.cls, o.mem, o.off, v, "value"))
        c.native = True
        self.arrays.append((elem, l, c))
        return c

    def raw_cell(self, o):
        """.raw copies: model as a cell so that a C call which fills the copy in place is visible"""
        v = self.raw(o)
        n = self.ctx.norm(self.ctx.blen(v))
        if self.I.env.get("cells") and not n.t and n.c > 0 and isinstance(v, bytes):
            cells = self.ctx.__dict__.setdefault("cells", {})
            k = len(cells)
            cells[k] = v
            return SBytes([("s", ("cell", k, n.c), Lin(0), Lin(n.c))])
        return v

    def ctor_array(self, I, cls, a, k):
        ctx = self.ctx
        o = Obj(cls)
        o.mem, o.off = BArr(ctx.zeros(lin(cls.ext["size"]))), 0
        if a and isinstance(a[0], tuple) and len(a[0]) == 2 and a[0][0] == "*bytes":
            b = a[0][1]
            n = ctx.blen(b)
            if not ctx.le(n, lin(cls.ext["clen"])):
                I.throw("IndexError", "invalid index")
            if cls.ext["elem"].ext["ctype"] != "int" or cls.ext["elem"].ext["size"] != 1:
                raise Unsupported("symbolic array initialiser")
            self.put(o.mem, 0, b)
            return o
        n = cls.ext["clen"]
        for i, v in enumerate(a):
            if (i >= n) if isinstance(n, int) else not ctx.lt(Lin(i), lin(n)):
                I.throw("IndexError", "invalid index")
            self.arr_set(o, i, v)
        return o

    def arr_off(self, o, k):
        I, ctx = self.I, self.ctx
        n = o.cls.ext["clen"]
        k = I.B.unwrap(k)
        if not isinstance(k, (int, Lin)):
            I.throw("TypeError", "indices must be integers")
        kl = lin(k)
        if isinstance(k, int) and isinstance(n, int):
            if k < 0:
                k += n
            if not 0 <= k < n:
                I.throw("IndexError", "invalid index")
            kl = lin(k)
        else:
            if ctx.le0(ladd(kl, 1)):
                kl = ladd(kl, n)
                if ctx.le0(ladd(kl, 1)):
                    I.throw("IndexError", "invalid index")
            elif not ctx.lt(kl, lin(n)):
                I.throw("IndexError", "invalid index")
        es = o.cls.ext["elem"].ext["size"]
        if isinstance(es, Lin):
            if ctx.norm(kl).t:
                raise Unsupported("symbolic index of symbolic-size array")
            return ladd(lin(o.off), lmul(es, ctx.norm(kl).c))
        return ladd(lin(o.off), lmul(kl, es))

    def arr_get(self, o, k):
        ctx = self.ctx
        e = o.cls.ext["elem"]
        if isinstance(k, slice):
            v = self.raw(o)
            if e.ext["ctype"] == "char":
                return self.I.getitem(v, k)
            n = o.cls.ext["clen"]
            if e.ext["ctype"] == "int" and e.ext["size"] == 1 and not e.ext["signed"] and k.step in (None, 1):
                r = self.I.getitem(v, k)
                m = ctx.norm(ctx.blen(r))
                if m.t:
                    return BList(r)
                return list(self.I.iterate(r))
            if isinstance(n, Lin):
                n = ctx.concretize(n, 8)
                if n is None:
                    raise Unsupported("slice of symbolic array")
            return [self.arr_get(o, i) for i in range(n)[self.I.B.cslice(k, n)]]
        return self.load(e, o.mem, self.arr_off(o, k))

    def arr_set(self, o, k, v):
        e = o.cls.ext["elem"]
        if isinstance(k, slice):
            n = o.cls.ext["clen"]
            b = self.I.B.bufferlike(v)
            if e.ext["ctype"] in ("int", "char") and e.ext["size"] == 1 and k.step in (None, 1):
                if b is None:
                    if e.ext["ctype"] == "char":
                        self.I.throw("TypeError", "one character bytes, bytearray or integer expected")
                    b = self.I.B.tobytes(v)
                lo, hi = self.I.B.slice_bounds(self.raw(o), k)
                if not self.ctx.eq0(lsub(self.ctx.blen(b), lsub(hi, lo))):
                    self.I.throw("ValueError", "Can only assign sequence of same size")
                self.put(o.mem, ladd(lin(o.off), lo), b)
                return
            vs = list(self.I.iterate(v))
            if isinstance(n, Lin):
                raise Unsupported("slice store")
            idx = range(n)[self.I.B.cslice(k, n)]
            if len(idx) != len(vs):
                self.I.throw("ValueError", "Can only assign sequence of same size")
            for i, x in zip(idx, vs):
                self.arr_set(o, i, x)
            return
        self.store(e, o.mem, self.arr_off(o, k), v, o.cls.name)

    # ------------------------------------------------------------ structures
    def on_struct(self, I, cls):
        base = next((b for b in cls.mro[1:] if b.ext.get("ctype") == "struct"), None)
        cls.ext["ctype"] = "struct"
        ctx = self.ctx
        fields = list(base.ext.get("fields", ())) if base is not None else []
        size = lin(base.ext.get("size", 0))
        align = base.ext.get("align", 1)
        if "_fields_" in cls.ns:
            pack = cls.find("_pack_")
            be = cls.sub(self.be)
            fl = cls.ns["_fields_"]
            if isinstance(fl, Top):
                raise Unsupported("unknown _fields_")
            unit = None          # (type, offset, bits used)
            for f in I.iterate(fl):
                f = tuple(I.iterate(f)) if not isinstance(f, tuple) else f
                name, ty = f[0], f[1]
                if not (isinstance(ty, Cls) and ty.ext.get("ctype")):
                    if isinstance(ty, Top):
                        raise Unsupported("unknown field type")
                    I.throw("TypeError", "second item in _fields_ tuple (index 0) must be a C type")
                if be and ty.ext["ctype"] == "int" and ty.ext["size"] > 1:
                    ty = ty.ext.get("__ctype_be__", ty)
                if not isinstance(name, str):
                    I.throw("TypeError", "_fields_ must be a sequence of (name, C type) pairs")
                if len(f) > 2:
                    w = f[2]
                    if not isinstance(w, int) or ty.ext["ctype"] != "int" or not 0 < w <= 8 * ty.ext["size"]:
                        I.throw("ValueError", "number of bits invalid for bit field")
                    tb = 8 * ty.ext["size"]
                    if unit is not None and unit[0] is not ty and unit[0].ext["size"] != ty.ext["size"]:
                        raise Unsupported("mixed bit-field types")
                    if unit is None or unit[2] + w > tb:
                        off, size = self.place(size, ty, pack)
                        unit = (ty, off, 0)
                    bo = unit[2] if not be else tb - unit[2] - w
                    if be and tb > 8:
                        raise Unsupported("big-endian multi-byte bit field")
                    self.bitfield(cls, name, ty, unit[1], bo, w)
                    fields.append((name, ty))
                    unit = (ty, unit[1], unit[2] + w)
                    align = max(align, 1 if pack else ty.ext["align"])
                    continue
                unit = None
                off, size = self.place(size, ty, pack)
                self.field(cls, name, ty, off)
                fields.append((name, ty))
                a = ty.ext.get("align", 1)
                align = max(align, min(a, pack) if isinstance(pack, int) and pack else a)
            if align > 1:
                s = ctx.norm(size)
                if s.t:
                    raise Unsupported("symbolic size with alignment")
                size = lin(-(-s.c // align) * align)
        cls.ext["fields"] = tuple(fields)
        cls.ext["size"] = pyint(ctx.norm(size))
        cls.ext["align"] = align

    def place(self, size, ty, pack):
        ctx = self.ctx
        a = ty.ext.get("align", 1)
        if isinstance(pack, int) and pack:
            a = min(a, pack)
        s = ctx.norm(size)
        if a > 1:
            if s.t:
                raise Unsupported("symbolic offset with alignment")
            s = lin(-(-s.c // a) * a)
        return s, ctx.norm(ladd(s, ty.ext["size"]))

    def field(self, cls, name, ty, off):
        cls.ns[name] = CField(lambda I, o: self.load(ty, o.mem, ladd(lin(o.off), off)),
                              lambda I, o, v: self.store(ty, o.mem, ladd(lin(o.off), off), v, "%s.%s" % (cls.name, name)),
                              pyint(off), ty.ext["size"])

    def bitfield(self, cls, name, ty, off, bo, w):
        ctx = self.ctx
        signed = ty.ext["signed"]

        def parts():
            b, left, sh = bo, w, 0
            while left:
                n = min(left, 8 - b % 8)
                yield b // 8, b % 8, n, sh
                b += n
                left -= n
                sh += n

        def get(I, o):
            t = Lin(0)
            for by, bi, n, sh in parts():
                x = self.slot(o.mem, ladd(ladd(lin(o.off), off), by), 1)
                t = ladd(t, lmul(lin(ctx.getbits(x, bi, n)), 1 << sh))
            t = ctx.norm(t)
            if signed:
                if ctx.le(lin(1 << (w - 1)), t):
                    t = ladd(t, -(1 << w))
            return pyint(t)

        def set(I, o, v):
            v = self.intval(v, name)
            v = self.fit(v, w, signed, "%s.%s" % (cls.name, name))
            if isinstance(v, int) and v < 0:
                v &= (1 << w) - 1
            for by, bi, n, sh in parts():
                p = ladd(ladd(lin(o.off), off), by)
                x = self.slot(o.mem, p, 1)
                piece = ctx.piece_bits(lin(v), sh, n) if (sh or n != w) else lin(v)
                self.put(o.mem, p, ctx.setbits(x, bi, n, piece))
        cls.ns[name] = CField(get, set, pyint(off), (w << 16) | bo)

    def struct_new(self, I, a, k):
        cls = a[0]
        if cls.ext.get("size") is None:
            self.on_struct(I, cls)
        o = Obj(cls)
        o.mem, o.off = BArr(self.ctx.zeros(lin(cls.ext["size"]))), 0
        return o

    def struct_init(self, I, a, k):
        o = a[0]
        fs = o.cls.ext["fields"]
        if len(a) - 1 > len(fs):
            I.throw("TypeError", "too many initializers")
        for (n, _), v in zip(fs, a[1:]):
            I.setattr(o, n, v)
        for n, v in k.items():
            I.setattr(o, n, v)

    # ------------------------------------------------------------ generic
    def sizeof(self, x):
        I = self.I
        c = x if isinstance(x, Cls) else x.cls if isinstance(x, Obj) else None
        if c is None or not c.ext.get("ctype"):
            if isinstance(x, Top):
                return x
            I.throw("TypeError", "this type has no size")
        n = c.ext.get("size", 0)
        return pyint(self.ctx.norm(lin(n)))

    def raw(self, o):
        n = o.cls.ext.get("size")
        return self.ctx.bslice(o.mem.v, lin(o.off), ladd(lin(o.off), n))

    def addressof(self, o):
        if not (isinstance(o, Obj) and o.mem is not None):
            self.I.throw("TypeError", "invalid type")
        a = Obj(self.addrcls)
        a.mem, a.off = o.mem, lin(o.off)
        a.ext = {"lim": ladd(lin(o.off), o.cls.ext.get("size", 0)), "base": lin(o.off)}
        return a

    def addr_add(self, a, k, s):
        k = self.I.B.unwrap(k)
        if not isinstance(k, (int, Lin)):
            raise Unsupported("pointer arithmetic")
        r = Obj(self.addrcls)
        r.mem, r.off = a.mem, ladd(a.off, k, s)
        r.ext = a.ext
        return r

    def region(self, v):
        """(mem, offset, limit) of a pointer-like argument; mem None: read-only bytes value in limit slot"""
        if isinstance(v, Obj):
            if v.cls is self.addrcls:
                return v.mem, v.off, v.ext["lim"]
            if v.cls is self.refcls:
                return v.mem, v.off, v.ext["lim"]
            if v.ext and "cbuf" in v.ext:
                b = v.ext["cbuf"]
                return b, Lin(0), self.ctx.blen(b.v)
            if v.cls.ext.get("ctype") and v.mem is not None:
                return v.mem, lin(v.off), ladd(lin(v.off), v.cls.ext.get("size", 0))
        return None

    def unknown(self, n):
        return self.ctx.mkb([("s", ("oobdata", self.ctx.fresh("oob")), Lin(0), lin(n))])

    def read_region(self, v, n, what):
        """n bytes at the pointer-like v (event 'oob' when they are not there)"""
        I, ctx = self.I, self.ctx
        n = lin(n)
        b = I.B.bval(v) if isinstance(v, (bytes, SBytes, BArr)) else None
        if b is None and isinstance(v, (MView,)):
            b = I.B.bval(v)
        if b is None:
            r = self.region(v)
            if r is None:
                if isinstance(v, Top):
                    raise Unsupported("unknown pointer")
                if v is None:
                    if ctx.eq0(n):
                        return b""
                    I.event("oob", "null pointer read", what)
                    return self.unknown(n)
                I.throw("TypeError", "%s: wrong type" % what)
            mem, off, lim = r
            if not (ctx.le(ladd(off, n), lim)):
                I.event("oob", "read", what, show_lin(n), show_lin(ctx.norm(lsub(lim, off))))
                return self.unknown(n)
            return ctx.bslice(mem.v, off, ladd(off, n))
        if not ctx.le(n, ctx.blen(b)):
            I.event("oob", "read", what, show_lin(ctx.norm(n)), show_lin(ctx.norm(ctx.blen(b))))
            return ctx.cat([b, self.unknown(lsub(n, ctx.blen(b)))])
        return ctx.bslice(b, Lin(0), n)

    def write_region(self, v, b, what):
        I, ctx = self.I, self.ctx
        n = ctx.blen(b)
        if isinstance(v, SBytes) and len(v.segs) == 1 and v.segs[0][0] == "s" and v.segs[0][1][0] == "cell":
            k = v.segs[0][1][1]
            if not ctx.le(n, lin(v.segs[0][1][2])):
                I.event("oob", "write", what, show_lin(n), str(v.segs[0][1][2]))
                return
            old = ctx.cells[k]
            ctx.cells[k] = ctx.cat([b, ctx.bslice(old, n, ctx.blen(old))])
            return
        if isinstance(v, (bytes, SBytes)):
            I.event("oob", "write into immutable bytes", what)
            return
        r = self.region(v)
        if r is None:
            if isinstance(v, Top):
                raise Unsupported("unknown pointer")
            if v is None:
                I.event("oob", "null pointer write", what)
                return
            I.throw("TypeError", "%s: wrong type" % what)
        mem, off, lim = r
        if not ctx.le(ladd(off, n), lim) or not ctx.le(Lin(0), off):
            I.event("oob", "write", what, show_lin(ctx.norm(n)), show_lin(ctx.norm(lsub(lim, off))))
            return
        self.put(mem, off, b)

    def memmove(self, dst, src, count):
        I = self.I
        if isinstance(count, Top):
            raise Unsupported("memmove size")
        if isinstance(src, BArr):
            I.throw(self.ns["ArgumentError"], "argument 2: TypeError: wrong type")
        if self.ctx.le0(ladd(lin(count), 1)):
            I.event("oob", "memmove with a negative count")
            return dst
        b = self.read_region(src, lin(count), "memmove source")
        self.write_region(dst, b, "memmove destination")
        return dst

    def memset(self, dst, c, count):
        if not isinstance(c, int):
            raise Unsupported("memset")
        b = self.ctx.zeros(lin(count)) if c == 0 else self.I.B.repeat(bytes([c]), count)
        self.write_region(dst, b, "memset")
        return dst

    def string_at(self, p, size=-1):
        if size == -1:
            r = self.region(p)
            if r is None:
                raise Unsupported("string_at")
            return self.nul(self.ctx.bslice(r[0].v, r[1], r[2]))
        return self.read_region(p, lin(size), "string_at")

    def create_string_buffer(self, init, size=None):
        I, ctx = self.I, self.ctx
        if isinstance(init, (bytes, SBytes)):
            n = ladd(ctx.blen(init), 1) if size is None else lin(size)
            if size is not None and not ctx.le(ctx.blen(init), n):
                I.throw("ValueError", "bytes too long")
            t = self.array_type(self.ns["c_char"], pyint(n))
            o = I.call(t, [], {})
            self.put(o.mem, 0, init)
            return o
        init = I.B.unwrap(init)
        if isinstance(init, (int, Lin)):
            return I.call(self.array_type(self.ns["c_char"], init), [], {})
        if isinstance(init, Top):
            raise Unsupported("buffer size")
        I.throw("TypeError", "bytes expected instead of %s" % I.type(init).name)

    def byref(self, o, off=0):
        if isinstance(o, Top):
            return o
        if not (isinstance(o, Obj) and o.mem is not None):
            self.I.throw("TypeError", "byref() argument must be a ctypes instance")
        r = Obj(self.refcls)
        r.mem, r.off = o.mem, ladd(lin(o.off), off)
        r.ext = {"lim": ladd(lin(o.off), o.cls.ext.get("size", 0)), "ref": o}
        return r

    def ptr_get(self, p, k):
        o = p.ext["ref"]
        if k != 0 or not (o.cls.ext.get("ctype") == "struct" or "clen" in o.cls.ext):
            if k == 0 and "value" in o.cls.ns or any("value" in c.ns for c in o.cls.mro):
                return self.I.getattr(o, "value")
            raise Unsupported("pointer arithmetic")
        r = Obj(o.cls)
        r.mem, r.off = p.mem, p.off
        return r

    def ptr_set(self, p, k, v):
        o = p.ext["ref"]
        if k != 0 or not (isinstance(v, Obj) and v.cls is o.cls and v.mem is not None and o.cls.ext.get("size") is not None):
            raise Unsupported("assignment through a pointer")
        n = lin(o.cls.ext["size"])
        self.write_region(p, self.ctx.bslice(v.mem.v, lin(v.off), ladd(lin(v.off), n)), "pointer target")

    def src_at(self, cls, src, off, name):
        I, ctx = self.I, self.ctx
        if cls.ext.get("size") is None and cls.ext.get("ctype") == "struct":
            self.on_struct(I, cls)
        b = I.B.bufferlike(src)
        if b is None:
            if isinstance(src, Top):
                raise Unsupported("unknown buffer")
            I.throw("TypeError", "a bytes-like object is required, not '%s'" % I.type(src).name)
        off = lin(I.B.unwrap(off))
        if ctx.le0(ladd(off, 1)):
            I.throw("ValueError", "offset cannot be negative")
        n = lin(cls.ext["size"])
        if not ctx.le(ladd(off, n), ctx.blen(b)):
            I.throw("ValueError", "Buffer size too small")
        return b, off, n

    def from_buffer_copy(self, I, a, k):
        cls, src = a[0], a[1]
        off = a[2] if len(a) > 2 else k.get("offset", 0)
        b, off, n = self.src_at(cls, src, off, "from_buffer_copy")
        o = Obj(cls)
        o.mem, o.off = BArr(self.ctx.bslice(b, off, ladd(off, n))), 0
        return o

    def from_buffer(self, I, a, k):
        cls, src = a[0], a[1]
        off = a[2] if len(a) > 2 else k.get("offset", 0)
        if isinstance(src, (bytes, SBytes)):
            I.throw("TypeError", "underlying buffer is not writable")
        b, off, n = self.src_at(cls, src, off, "from_buffer")
        o = Obj(cls)
        if isinstance(src, BArr):
            o.mem, o.off = src, off
        elif isinstance(src, MView) and isinstance(src.base, BArr):
            o.mem, o.off = src.base, ladd(lin(src.lo), off)
        elif isinstance(src, Obj) and src.mem is not None:
            o.mem, o.off = src.mem, ladd(lin(src.off), off)
        else:
            I.throw("TypeError", "underlying buffer is not writable")
        return o
