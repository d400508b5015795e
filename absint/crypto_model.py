"""Ideal cryptography as terms, and models of the C API of libsodium / NaCl, pynacl's bindings and tweetnacl.raw."""
from .domain import *
from .interp import (BArr, CMeth, Cls, MView, Mod, NDesc, NMeth, Nat, Obj, PyExc, SMeth, SStr, Top, TopMod, Unsupported, BYTESY)

CONSTS = {
    "crypto_sign_BYTES": 64, "crypto_sign_SEEDBYTES": 32, "crypto_sign_PUBLICKEYBYTES": 32, "crypto_sign_SECRETKEYBYTES": 64,
    "crypto_box_PUBLICKEYBYTES": 32, "crypto_box_SECRETKEYBYTES": 32, "crypto_box_NONCEBYTES": 24, "crypto_box_ZEROBYTES": 32,
    "crypto_box_BOXZEROBYTES": 16, "crypto_box_BEFORENMBYTES": 32, "crypto_box_MACBYTES": 16, "crypto_box_SEEDBYTES": 32,
    "crypto_hash_BYTES": 64, "crypto_hash_sha512_BYTES": 64, "crypto_scalarmult_BYTES": 32, "crypto_scalarmult_SCALARBYTES": 32,
    "crypto_secretbox_KEYBYTES": 32, "crypto_secretbox_NONCEBYTES": 24, "crypto_hash_sha256_BYTES": 32,
}


class Terms:
    """term algebra of the ideal primitives"""

    def __init__(self, I):
        self.I = I
        self.ctx = I.ctx

    def atom(self, *a):
        a = (a[0],) + tuple(self.ctx.renorm(x) if isinstance(x, SBytes) else x for x in a[1:])
        return self.ctx.atom_bytes(a)

    def atom_of(self, b):
        """the atom b is the whole of, or None"""
        b = self.ctx.renorm(b)
        if isinstance(b, SBytes) and len(b.segs) == 1 and b.segs[0][0] == "s":
            _, a, lo, hi = b.segs[0]
            if lo == Lin(0) and self.ctx.norm(hi) == self.ctx.norm(self.ctx.alen(a)):
                return a
        return None

    def sha512(self, m):
        self.I.event("hash", m)
        return self.atom("sha512", m)

    def xpub(self, sk):
        return self.atom("xpub", sk)

    def edpub(self, seed):
        return self.atom("edpub", seed)

    def edkeys(self, seed):
        pk = self.edpub(seed)
        return pk, self.ctx.cat([seed, pk])

    def sign(self, m, sk):
        self.I.event("sign", m, sk)
        return self.atom("sig", m, sk)

    def dh(self, pk, sk):
        self.I.event("dh", pk, sk)
        x, y = sorted([self.xpub(sk), self.ctx.renorm(pk)], key=repr)
        return self.atom("dh", x, y)

    def low_order(self, pk):
        """the peer's public key is one the library refuses"""
        pk = self.ctx.renorm(pk)
        a = self.atom_of(pk)
        if a is not None and a[0] == "xpub":
            return False
        return not self.ctx.opaque(("goodpoint", pk), "usable public key")

    def box(self, m, n, k):
        self.I.event("box", m, n, k)
        return self.atom("box", m, n, k)

    def open_ok(self, c, n, k):
        ctx = self.ctx
        a = self.atom_of(c)
        if a is not None and a[0] == "box":
            ok = ctx.renorm(a[2]) == ctx.renorm(n) and ctx.renorm(a[3]) == ctx.renorm(k)
        else:
            if not ctx.le(Lin(16), ctx.blen(c)):
                ok = False
            else:
                ok = ctx.opaque(("authentic", ctx.renorm(c), ctx.renorm(n), ctx.renorm(k)), "ciphertext authentic")
        self.I.event("open", ok, c, n, k)
        return ok

    def open(self, c, n, k):
        a = self.atom_of(c)
        if a is not None and a[0] == "box":
            return a[1]
        return self.atom("open", c, n, k)

    def verify(self, sig, m, pk):
        ctx = self.ctx
        sig, m, pk = ctx.renorm(sig), ctx.renorm(m), ctx.renorm(pk)
        a = self.atom_of(sig)
        if a is not None and a[0] == "sig":
            sk = a[2]
            own = ctx.bslice(sk, Lin(32), Lin(64)) if ctx.known_eq0(lsub(ctx.blen(sk), 64)) else None
            ok = own is not None and ctx.renorm(a[1]) == m and ctx.renorm(own) == pk
        else:
            ok = ctx.opaque(("valid", sig, m, pk), "signature valid")
        self.I.event("verify", ok, sig, m, pk)
        return ok

    def random(self, n, src):
        k = self.ctx.fresh("urandom")
        self.I.event("random", src, k, n)
        return self.ctx.atom_bytes(("urandom", lin(n), k, src))


class Crypto:
    def __init__(self, I, ct):
        self.I = I
        self.ctx = I.ctx
        self.ct = ct
        self.T = Terms(I)

    # ------------------------------------------------------------ C API
    def num(self, v):
        if isinstance(v, Obj) and v.cls.ext.get("ctype") == "int":
            return self.ct.load(v.cls, v.mem, lin(v.off))
        v = self.I.B.unwrap(v)
        if isinstance(v, (int, Lin)):
            return v
        raise Unsupported("C integer argument")

    def rd(self, p, n, what):
        return self.ct.read_region(p, lin(n), what)

    def wr(self, p, b, what):
        self.ct.write_region(p, b, what)

    def wlen(self, p, n):
        if p is None:
            return
        if isinstance(p, Obj) and p.ext and "cval" in p.ext:
            p.ext["cval"][0] = n
            return
        self.ct.write_region(p, self.ctx.le_bytes(lin(n), 8), "length")

    def rc(self, name, fails=True):
        """return code of a library call which may fail; -1 is recorded"""
        if fails and self.I.env.get("rcfail") and not self.ctx.opaque(("rc", name, self.ctx.fresh("rc")), "%s succeeds" % name):
            self.I.event("rcfail", name)
            return -1
        return 0

    def fn(self, name):
        """python callable for C function `name`, or None"""
        T, ctx = self.T, self.ctx
        if name.endswith("_bytes") or name.endswith("bytes") and name[:-5].upper() != name:
            up = "_".join(p.upper() if i == len(name.split("_")) - 1 else p for i, p in enumerate(name.split("_")))
            for cand in (up, name[:-6] + "_BYTES" if name.endswith("_bytes") else up):
                if cand in CONSTS:
                    return lambda: CONSTS[cand]
        if name == "sodium_init":
            return lambda: 0

        def seed_keypair(pk, sk, seed):
            s = self.rd(seed, 32, "seed")
            if self.rc(name):
                return -1
            p, k = T.edkeys(s)
            self.wr(pk, p, "public key")
            self.wr(sk, k, "secret key")
            return 0

        def sign(sm, smlen, m, mlen, sk):
            mlen = self.num(mlen)
            mm, k = self.rd(m, mlen, "message"), self.rd(sk, 64, "secret key")
            if self.rc(name):
                return -1
            r = ctx.cat([T.sign(mm, k), mm])
            self.wr(sm, r, "signed message")
            self.wlen(smlen, ctx.blen(r))
            return 0

        def sign_open(m, mlen, sm, smlen, pk):
            n = self.num(smlen)
            s, p = self.rd(sm, n, "signed message"), self.rd(pk, 32, "public key")
            ok = ctx.le(Lin(64), ctx.blen(s))
            if ok:
                sig, mm = ctx.bslice(s, Lin(0), Lin(64)), ctx.bslice(s, Lin(64), ctx.blen(s))
                ok = T.verify(sig, mm, p)
            if not ok:
                self.I.event("rcfail", name)
                return -1
            self.wr(m, mm, "opened message")
            self.wlen(mlen, ctx.blen(mm))
            return 0

        def detached(sig, siglen, m, mlen, sk):
            mm, k = self.rd(m, self.num(mlen), "message"), self.rd(sk, 64, "secret key")
            if self.rc(name):
                return -1
            self.wr(sig, T.sign(mm, k), "signature")
            self.wlen(siglen, 64)
            return 0

        def verify_detached(sig, m, mlen, pk):
            s, mm, p = self.rd(sig, 64, "signature"), self.rd(m, self.num(mlen), "message"), self.rd(pk, 32, "public key")
            if not T.verify(s, mm, p):
                self.I.event("rcfail", name)
                return -1
            return 0

        def scalarmult_base(q, n):
            s = self.rd(n, 32, "scalar")
            if self.rc(name):
                return -1
            self.wr(q, T.xpub(s), "point")
            return 0

        def beforenm(k, pk, sk):
            p, s = self.rd(pk, 32, "public key"), self.rd(sk, 32, "secret key")
            if T.low_order(p):
                self.I.event("rcfail", name)
                return -1
            self.wr(k, T.dh(p, s), "shared key")
            return 0

        def afternm(c, m, mlen, n, k):
            ln = self.num(mlen)
            mm, nn, kk = self.rd(m, ln, "padded message"), self.rd(n, 24, "nonce"), self.rd(k, 32, "key")
            if not ctx.le(Lin(32), ctx.blen(mm)):
                self.I.event("rcfail", name)
                return -1
            z = ctx.bslice(mm, Lin(0), Lin(32))
            if z != bytes(32):
                self.I.event("badpad", name)
            if self.rc(name):
                return -1
            self.wr(c, ctx.cat([bytes(16), T.box(ctx.bslice(mm, Lin(32), ctx.blen(mm)), nn, kk)]), "ciphertext")
            return 0

        def open_afternm(m, c, clen, n, k):
            ln = self.num(clen)
            cc, nn, kk = self.rd(c, ln, "padded ciphertext"), self.rd(n, 24, "nonce"), self.rd(k, 32, "key")
            if not ctx.le(Lin(32), ctx.blen(cc)):
                self.I.event("rcfail", name)
                return -1
            z = ctx.bslice(cc, Lin(0), Lin(16))
            if z != bytes(16):
                self.I.event("badpad", name)
            body = ctx.bslice(cc, Lin(16), ctx.blen(cc))
            if not T.open_ok(body, nn, kk):
                self.I.event("rcfail", name)
                return -1
            self.wr(m, ctx.cat([bytes(32), T.open(body, nn, kk)]), "plaintext")
            return 0

        def easy(c, m, mlen, n, k):
            mm, nn, kk = self.rd(m, self.num(mlen), "message"), self.rd(n, 24, "nonce"), self.rd(k, 32, "key")
            if self.rc(name):
                return -1
            self.wr(c, T.box(mm, nn, kk), "ciphertext")
            return 0

        def open_easy(m, c, clen, n, k):
            cc, nn, kk = self.rd(c, self.num(clen), "ciphertext"), self.rd(n, 24, "nonce"), self.rd(k, 32, "key")
            if not ctx.le(Lin(16), ctx.blen(cc)) or not T.open_ok(cc, nn, kk):
                self.I.event("rcfail", name)
                return -1
            self.wr(m, T.open(cc, nn, kk), "plaintext")
            return 0

        def hash_(h, m, mlen):
            mm = self.rd(m, self.num(mlen), "message")
            if self.rc(name):
                return -1
            self.wr(h, T.sha512(mm), "hash")
            return 0

        def rand(b, n):
            self.wr(b, T.random(self.num(n), "lib"), "random buffer")
            return 0
        return {
            "crypto_sign_seed_keypair": seed_keypair, "crypto_sign_ed25519_seed_keypair": seed_keypair, "crypto_sign": sign,
            "crypto_sign_open": sign_open, "crypto_sign_detached": detached, "crypto_sign_verify_detached": verify_detached,
            "crypto_sign_ed25519": sign, "crypto_sign_ed25519_open": sign_open,
            "crypto_scalarmult_base": scalarmult_base, "crypto_scalarmult_curve25519_base": scalarmult_base,
            "crypto_box_beforenm": beforenm, "crypto_box_curve25519xsalsa20poly1305_beforenm": beforenm,
            "crypto_box_afternm": afternm, "crypto_box_open_afternm": open_afternm,
            "crypto_secretbox": afternm, "crypto_secretbox_open": open_afternm, "crypto_secretbox_easy": easy,
            "crypto_secretbox_open_easy": open_easy,
            "crypto_box_easy_afternm": easy, "crypto_box_open_easy_afternm": open_easy,
            "crypto_hash_sha512": hash_, "crypto_hash": hash_, "randombytes_buf": rand, "randombytes": rand}.get(name)

    def library(self, name):
        I = self.I
        cls = Cls("CDLL", (I.B.OBJECT,), meta=I.B.TYPE, mod="ctypes")
        fcls = Cls("_FuncPtr", (I.B.OBJECT,), meta=I.B.TYPE, mod="ctypes")
        fcls.ns["__call__"] = NMeth("call", lambda I, a, k: self.ccall(a[0].ext["fn"], a[1:]))
        o = Obj(cls)
        o.d["_name"] = name
        cache = {}

        def ga(I, a, k):
            n = a[1]
            if n in cache:
                return cache[n]
            if name is None:
                I.throw("AttributeError", "undefined symbol: " + n)
            if n.startswith("__"):
                I.throw("AttributeError", n)
            f = self.fn(n)
            if f is None:
                return Top("libsodium." + n)
            fo = Obj(fcls)
            fo.ext = {"fn": (n, f)}
            fo.d["argtypes"] = None
            fo.d["restype"] = I.models.ct.ns["c_int"]
            cache[n] = fo
            return fo
        cls.ns["__getattr__"] = NMeth("getattr", ga)
        return o

    def ccall(self, nf, a):
        import inspect
        n, f = nf
        I = self.I
        for v in a:
            if isinstance(v, (BArr, MView, list, tuple, str, float)):
                I.throw(I.models.ct.ns["ArgumentError"], "argument: TypeError: don't know how to convert parameter")
        k = len(inspect.signature(f).parameters)
        if len(a) != k:
            I.event("oob", "%s called with %d arguments instead of %d" % (n, len(a), k))
            raise Unsupported("C call arity")
        I.event("clib", n)
        return f(*a)

    # ------------------------------------------------------------ pynacl
    def nacl_modules(self):
        I, T, ctx = self.I, self.T, self.ctx
        B = I.B
        E = {}
        exc = Mod("nacl.exceptions")
        base = Cls("CryptoError", (B.exc["Exception"],), meta=B.TYPE, mod="nacl.exceptions")
        exc.ns["CryptoError"] = base
        for n, b in (("BadSignatureError", base), ("InvalidkeyError", base), ("CryptPrefixError", base), ("UnavailableError", base)):
            exc.ns[n] = Cls(n, (b,), meta=B.TYPE, mod="nacl.exceptions")
        for n in ("RuntimeError", "AssertionError", "TypeError", "ValueError"):
            exc.ns[n] = Cls(n, (B.exc[n], base), meta=B.TYPE, mod="nacl.exceptions")

        def ensure(I, a, k):
            r = k.get("raising", exc.ns["AssertionError"])
            if not I.truth(a[0]):
                I.throw(r, *a[1:])
        exc.ns["ensure"] = Nat("ensure", ensure)
        bd = Mod("nacl.bindings")

        def by(v, what):
            if isinstance(v, Top):
                raise Unsupported("unknown argument")
            if not isinstance(v, (bytes, SBytes)):
                I.throw(exc.ns["TypeError"], "%s must be bytes" % what)
            return v

        def size(v, n, what):
            v = by(v, what)
            if not ctx.eq0(lsub(ctx.blen(v), n)):
                I.throw(exc.ns["ValueError"], "%s must be exactly %d bytes long" % (what, n))
            return v
        self.by, self.size = by, size

        def reg(n):
            def d(f):
                bd.ns[n] = Nat(n, lambda I, a, k: f(*a, **k))
                return f
            return d

        @reg("crypto_sign")
        def _(message, sk):
            by(message, "message")
            return ctx.cat([T.sign(message, sk), message])

        @reg("crypto_sign_open")
        def _(signed, pk):
            by(signed, "signed")
            ok = ctx.le(Lin(64), ctx.blen(signed))
            if ok:
                m = ctx.bslice(signed, Lin(64), ctx.blen(signed))
                ok = T.verify(ctx.bslice(signed, Lin(0), Lin(64)), m, pk)
            if not ok:
                I.event("rcfail", "crypto_sign_open")
                I.throw(exc.ns["BadSignatureError"], "Signature was forged or corrupt")
            return m

        @reg("crypto_sign_seed_keypair")
        def _(seed):
            size(seed, 32, "seed")
            return T.edkeys(seed)

        @reg("crypto_box_beforenm")
        def _(pk, sk):
            size(pk, 32, "public key")
            size(sk, 32, "secret key")
            if T.low_order(pk):
                I.event("rcfail", "crypto_box_beforenm")
                I.throw(exc.ns["RuntimeError"], "Unexpected library error")
            return T.dh(pk, sk)

        @reg("crypto_box_afternm")
        def _(message, nonce, k):
            size(nonce, 24, "nonce")
            size(k, 32, "shared key")
            return T.box(by(message, "message"), nonce, k)
        bd.ns["crypto_box_easy_afternm"] = bd.ns["crypto_box_afternm"]

        @reg("crypto_box_open_afternm")
        def _(ciphertext, nonce, k):
            size(nonce, 24, "nonce")
            size(k, 32, "shared key")
            by(ciphertext, "ciphertext")
            if not ctx.le(Lin(16), ctx.blen(ciphertext)) or not T.open_ok(ciphertext, nonce, k):
                I.event("rcfail", "crypto_box_open_afternm")
                I.throw(base, "An error occurred trying to decrypt the message")
            return T.open(ciphertext, nonce, k)
        bd.ns["crypto_box_open_easy_afternm"] = bd.ns["crypto_box_open_afternm"]

        @reg("crypto_scalarmult_base")
        def _(n):
            return T.xpub(size(n, 32, "scalar"))

        @reg("crypto_hash")
        def _(m):
            return T.sha512(by(m, "message"))
        bd.ns["crypto_hash_sha512"] = bd.ns["crypto_hash"]
        reg("crypto_hash_sha256")(lambda m: Top("sha256"))

        @reg("randombytes")
        def _(n):
            return T.random(n, "lib")
        for n, v in CONSTS.items():
            bd.ns[n] = v
        ffi, lib = Mod("nacl._sodium.ffi"), Mod("nacl._sodium.lib")
        cb = Cls("CData", (B.OBJECT,), meta=B.TYPE, mod="cffi")
        buf = Cls("buffer", (B.OBJECT,), meta=B.TYPE, mod="cffi")

        def new(I, a, k):
            o = Obj(cb)
            t = a[0]
            if isinstance(t, str) and t.replace(" ", "") in ("unsignedlonglong*", "size_t*"):
                o.ext = {"cval": [0]}
                return o
            n = a[1] if len(a) > 1 else 0
            if isinstance(t, str) and t.rstrip().endswith("]") and not t.rstrip().endswith("[]"):
                n = int(t[t.index("[") + 1:t.index("]")])
            if isinstance(n, BYTESY):
                o.ext = {"cbuf": BArr(ctx.cat([B.bval(n), b"\0"]))}
                return o
            if not isinstance(n, (int, Lin)):
                raise Unsupported("ffi.new")
            if ctx.le0(ladd(lin(n), 1)):
                I.throw("ValueError", "negative array length")
            o.ext = {"cbuf": BArr(ctx.zeros(lin(n)))}
            return o

        def buffer(I, a, k):
            o = Obj(buf)
            b = a[0].ext["cbuf"]
            n = lin(a[1]) if len(a) > 1 else ctx.blen(b.v)
            if not ctx.le(n, ctx.blen(b.v)):
                I.event("oob", "ffi.buffer larger than its object", "", show_lin(n))
                n = ctx.blen(b.v)
            o.ext = {"cbuf": b, "n": n}
            return o

        def cb_len(I, a, k):
            return pyint(ctx.norm(ctx.blen(a[0].ext["cbuf"].v)))
        cb.ns["__len__"] = NMeth("len", cb_len)
        cb.ns["__getitem__"] = NMeth("getitem", lambda I, a, k: a[0].ext["cval"][0] if "cval" in a[0].ext else I.getitem(a[0].ext["cbuf"], a[1]))
        buf.ns["__getitem__"] = NMeth("getitem", lambda I, a, k: I.getitem(ctx.bslice(a[0].ext["cbuf"].v, Lin(0), a[0].ext["n"]), a[1]))
        buf.ns["__bytes__"] = NMeth("bytes", lambda I, a, k: ctx.bslice(a[0].ext["cbuf"].v, Lin(0), a[0].ext["n"]))
        buf.ns["__len__"] = NMeth("len", lambda I, a, k: pyint(ctx.norm(a[0].ext["n"])))
        ffi.ns["new"] = Nat("new", new)
        ffi.ns["buffer"] = Nat("buffer", buffer)
        ffi.ns["NULL"] = None

        class LibMod(Mod):
            pass
        L = self.library("libsodium(pynacl)")
        nacl = Mod("nacl")
        sod = Mod("nacl._sodium", {"ffi": ffi, "lib": L})
        nacl.ns.update(bindings=bd, exceptions=exc, _sodium=sod)
        return {"nacl": nacl, "nacl.bindings": bd, "nacl.exceptions": exc, "nacl._sodium": sod}

    # ------------------------------------------------------------ tweetnacl.raw
    def tweetnacl_modules(self):
        I, T, ctx = self.I, self.T, self.ctx
        m = Mod("tweetnacl.raw")

        def size(v, n, what):
            if isinstance(v, Top):
                raise Unsupported("unknown argument")
            if not isinstance(v, (bytes, SBytes)):
                I.throw("TypeError", "bytes expected")
            if not ctx.eq0(lsub(ctx.blen(v), n)):
                I.throw("ValueError", "incorrect %s length" % what)
            return v

        def reg(n):
            def d(f):
                m.ns[n] = Nat(n, lambda I, a, k: f(*a, **k))
                return f
            return d

        @reg("crypto_sign")
        def _(msg, sk):
            size(sk, 64, "secret key")
            return ctx.cat([T.sign(msg, sk), msg])

        @reg("crypto_sign_open")
        def _(sm, pk):
            size(pk, 32, "public key")
            ok = ctx.le(Lin(64), ctx.blen(sm))
            if ok:
                mm = ctx.bslice(sm, Lin(64), ctx.blen(sm))
                ok = T.verify(ctx.bslice(sm, Lin(0), Lin(64)), mm, pk)
            if not ok:
                I.event("rcfail", "crypto_sign_open")
                I.throw("ValueError", "invalid signature")
            return mm
        reg("crypto_sign_seed_keypair")(lambda seed: T.edkeys(size(seed, 32, "seed")))

        @reg("crypto_box_beforenm")
        def _(pk, sk):
            size(pk, 32, "pk")
            size(sk, 32, "sk")
            return T.dh(pk, sk)

        @reg("crypto_box_afternm")
        def _(msg, n, k):
            return T.box(msg, size(n, 24, "nonce"), size(k, 32, "key"))

        @reg("crypto_box_open_afternm")
        def _(c, n, k):
            size(n, 24, "nonce")
            size(k, 32, "key")
            if not ctx.le(Lin(16), ctx.blen(c)) or not T.open_ok(c, n, k):
                I.event("rcfail", "crypto_box_open_afternm")
                I.throw("ValueError", "ciphertext fails verification")
            return T.open(c, n, k)
        reg("crypto_scalarmult_base")(lambda n: T.xpub(size(n, 32, "scalar")))
        reg("crypto_hash")(lambda x: T.sha512(x))
        reg("randombytes")(lambda n: T.random(n, "lib"))
        for n, v in CONSTS.items():
            m.ns[n] = v
        p = Mod("tweetnacl", {"raw": m})
        return {"tweetnacl": p, "tweetnacl.raw": m}
