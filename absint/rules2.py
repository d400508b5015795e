"""Rules C13-C25: packets, transports, time stamps, crypto back ends, facade, synchronous API, A1/A2, scheduling, logging channel."""
from .sessions import *
from .rules1 import (Scn, yn, kind, name_of, valid_m1, valid_m2, valid_a1, enc_channel, role_obj, int_state, flags_last, is_prefix, app_pair, BACKENDS, LONG, mined, handshake, newchan, hist, Apart, many)
from . import relang

V2, AA = "saltchannel.v2.packets", "saltchannel.a1a2.packets"
LEGAL = frozenset(b"-./_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")


# ------------------------------------------------------------------ packet helpers
def pbytes(R, p):
    return R.bts(R.I.call(R.I.B.types["bytes"], [p], {}))


def data(R, p):
    return R.get(p, "data")


def hdr(R, p):
    return R.get(data(R, p), "Header")


def num(R, v):
    """integer value of a field"""
    v = R.I.B.unwrap(v) if isinstance(v, Obj) else v
    if isinstance(v, bool):
        return Lin(int(v))
    if isinstance(v, (int, Lin)):
        return R.ctx.norm(lin(v))
    if isinstance(v, Top):
        raise Unsupported("unknown field value")
    return None


def fbytes(R, v):
    """bytes of an array field"""
    if isinstance(v, (bytes, SBytes, BArr, MView)):
        return R.bts(v)
    return R.bts(R.I.call(R.I.B.types["bytes"], [v], {}))


def must_num(R, v, want, rule, what):
    v = num(R, v)
    R.check(v is not None and R.ctx.known_eq0(lsub(v, lin(want))) is True, rule, lambda: "%s is %s, expected %s" % (what, R.sh(v), R.sh(lin(want))))


def must_bytes(R, v, want, rule, what):
    R.check(R.is_(v, want), rule, lambda: "%s is %s, expected %s" % (what, R.sh(v), R.sh(want)))


def u32(R, name="time"):
    return R.sym(name, 0, (1 << 32) - 1)


def sized(R, name, lo, hi):
    """byte string input with lo <= length <= hi"""
    v = R.inp(name)
    n = R.ctx.blen(v)
    R.ctx.assume_le0(lsub(Lin(lo), n))
    if hi is not None:
        R.ctx.assume_le0(lsub(n, Lin(hi)))
    return v


# ------------------------------------------------------------------ C13
def setf(R, o, n, v):
    R.set(o, n, pyint(v) if isinstance(v, Lin) else v)


def c13_build(R, what):
    """serialise all field values -> specified bytes, and parse back"""
    if what in ("M1", "M1key"):
        p = R.new(V2, "M1Packet")
        t, k, sk = u32(R), R.inp("enc_key", 32), R.inp("sig_key", 32)
        if what == "M1key":
            setf(R, hdr(R, p), "ServerSigKeyIncluded", 1)
        R.I.call(R.get(p, "create_opt_fields"), [], {})
        setf(R, data(R, p), "Time", t)
        R.set(p, "ClientEncKey", k)
        if what == "M1key":
            R.set(p, "ServerSigKey", sk)
        want = R.cat(b"SCv2\x01", b"\x01" if what == "M1key" else b"\0", R.le(t, 4), k, *([sk] if what == "M1key" else []))
        q = roundtrip(R, p, want, V2, "M1Packet", what)
        if q is not None:
            must_num(R, R.get(data(R, q), "Time"), t, "field-time", "parsed M1 time")
            must_bytes(R, fbytes(R, R.get(q, "ClientEncKey")), k, "field-key", "parsed M1 ClientEncKey")
            must_num(R, R.get(hdr(R, q), "ServerSigKeyIncluded"), 1 if what == "M1key" else 0, "field-flag", "parsed M1 ServerSigKeyIncluded")
            if what == "M1key":
                must_bytes(R, fbytes(R, R.get(q, "ServerSigKey")), sk, "field-sigkey", "parsed M1 ServerSigKey")
    elif what == "M2":
        p = R.new(V2, "M2Packet")
        t, k = u32(R), R.inp("enc_key", 32)
        nos, last = R.sym("nosuch", 0, 1), R.sym("last", 0, 1)
        n1 = R.ctx.eq0(lsub(nos, 1))
        l1 = R.ctx.eq0(lsub(last, 1))
        setf(R, hdr(R, p), "NoSuchServer", 1 if n1 else 0)
        setf(R, hdr(R, p), "LastFlag", 1 if l1 else 0)
        setf(R, data(R, p), "Time", t)
        R.set(p, "ServerEncKey", k)
        want = R.cat(b"\x02", bytes([(1 if n1 else 0) | (0x80 if l1 or n1 else 0)]), R.le(t, 4), k)
        q = roundtrip(R, p, want, V2, "M2Packet", what)
        if q is not None:
            must_num(R, R.get(data(R, q), "Time"), t, "field-time", "parsed M2 time")
            must_bytes(R, fbytes(R, R.get(q, "ServerEncKey")), k, "field-key", "parsed M2 ServerEncKey")
            must_num(R, R.get(hdr(R, q), "NoSuchServer"), 1 if n1 else 0, "field-flag", "parsed M2 NoSuchServer")
            must_num(R, R.get(hdr(R, q), "LastFlag"), 1 if n1 or l1 else 0, "field-flag", "parsed M2 LastFlag")
    elif what in ("M3", "M4"):
        kf, sf = ("ServerSigKey", "Signature1") if what == "M3" else ("ClientSigKey", "Signature2")
        p = R.new(V2, what + "Packet")
        t, k, s = u32(R), R.inp("sig_key", 32), R.inp("signature", 64)
        setf(R, data(R, p), "Time", t)
        R.set(p, kf, k)
        R.set(p, sf, s)
        q = roundtrip(R, p, R.cat(b"\x03\0" if what == "M3" else b"\x04\0", R.le(t, 4), k, s), V2, what + "Packet", what)
        if q is not None:
            must_num(R, R.get(data(R, q), "Time"), t, "field-time", "parsed %s time" % what)
            must_bytes(R, fbytes(R, R.get(q, kf)), k, "field-key", "parsed %s %s" % (what, kf))
            must_bytes(R, fbytes(R, R.get(q, sf)), s, "field-signature", "parsed %s %s" % (what, sf))
    elif what == "Encrypted":
        p = R.new(V2, "EncryptedPacket")
        b = sized(R, "body", 16, None)
        l1 = R.ctx.eq0(lsub(R.sym("last", 0, 1), 1))
        setf(R, hdr(R, p), "LastFlag", 1 if l1 else 0)
        R.set(p, "Body", b)
        q = roundtrip(R, p, R.cat(b"\x06", b"\x80" if l1 else b"\0", b), V2, "EncryptedPacket", what)
        if q is not None:
            must_bytes(R, fbytes(R, R.get(q, "Body")), b, "field-body", "parsed Body")
            must_num(R, R.get(hdr(R, q), "LastFlag"), 1 if l1 else 0, "field-flag", "parsed LastFlag")
    elif what == "App":
        p = R.new(V2, "AppPacket")
        t, b = u32(R), R.inp("message")
        setf(R, data(R, p), "Time", t)
        R.set(p, "Data", b)
        q = roundtrip(R, p, R.cat(b"\x05\0", R.le(t, 4), b), V2, "AppPacket", what)
        if q is not None:
            must_num(R, R.get(data(R, q), "Time"), t, "field-time", "parsed time")
            must_bytes(R, fbytes(R, R.get(q, "Data")), b, "field-data", "parsed Data")
    elif what.startswith("MultiApp"):
        many = what[8:9] == "x"
        n = int(what[9 if many else 8:])
        p = R.new(V2, "MultiAppPacket")
        t = u32(R)
        ms = [sized(R, "m%d" % i, 0, 65535) for i in range(n)] if not many else [(b"%d" % i)[:i % 7] for i in range(n)]
        setf(R, data(R, p), "Time", t)
        setf(R, data(R, p), "Count", n)
        R.I.call(R.get(p, "create_opt_fields"), [], {"msgs": tuple(ms)})
        w = [b"\x0b\0", R.le(t, 4), n.to_bytes(2, "little")]
        for m in ms:
            w += [R.le(R.ctx.blen(m), 2), m]
        q = roundtrip(R, p, R.cat(*w), V2, "MultiAppPacket", what)
        if q is not None:
            must_num(R, R.get(data(R, q), "Time"), t, "field-time", "parsed time")
            must_num(R, R.get(data(R, q), "Count"), n, "field-count", "parsed Count")
            msgs = R.I.B.iterate(R.get(R.get(q, "opt"), "Message"))
            msgs = list(msgs)
            R.check(len(msgs) == n, "field-messages", lambda: "%d messages parsed from %d" % (len(msgs), n))
            for i, (x, y) in enumerate(zip(msgs, ms)):
                must_bytes(R, fbytes(R, x), y, "field-message", "parsed message %d" % i)
    elif what in ("A1", "A1key"):
        p = R.new(AA, "A1Packet")
        k = R.inp("address", 32)
        if what == "A1key":
            setf(R, data(R, p), "AddressType", 1)
            setf(R, data(R, p), "AddressSize", 32)
            R.I.call(R.get(p, "create_opt_fields"), [], {})
            R.set(p, "Address", k)
        want = R.cat(b"\x08\0\x01\x20\0", k) if what == "A1key" else b"\x08\0\0\0\0"
        q = roundtrip(R, p, want, AA, "A1Packet", what)
        if q is not None:
            must_num(R, R.get(data(R, q), "AddressType"), 1 if what == "A1key" else 0, "field-type", "parsed AddressType")
            must_num(R, R.get(data(R, q), "AddressSize"), 32 if what == "A1key" else 0, "field-size", "parsed AddressSize")
            must_bytes(R, fbytes(R, R.get(q, "Address")), k if what == "A1key" else b"", "field-address", "parsed Address")
    elif what in ("A2none", "A2default"):
        C = R.get(R.cls(AA, "A2Packet"), "Case")
        p = R.new(AA, "A2Packet", case=R.get(C, "A2_NO_SUCH_SERVER" if what == "A2none" else "A2_DEFAUT"))
        want = b"\x09\x81\0" if what == "A2none" else b"\x09\x80\x01SCv2----------------"
        q = roundtrip(R, p, want, AA, "A2Packet", what)
        if q is not None:
            must_num(R, R.get(hdr(R, q), "NoSuchServer"), 1 if what == "A2none" else 0, "field-flag", "parsed NoSuchServer")
            must_num(R, R.get(data(R, q), "Count"), 0 if what == "A2none" else 1, "field-count", "parsed Count")
    elif what.startswith("A2x"):
        n = int(what[3:])
        p = R.new(AA, "A2Packet")
        cb = R.get(R.mod("saltchannel.util"), "cbytes")
        setf(R, data(R, p), "Count", n)
        R.I.call(R.get(p, "create_opt_fields"), [], {"prot_count": n})
        w = []
        for i in range(n):
            for j in (1, 2):
                s = R.inp("P%d_%d" % (i, j), 10) if n < 20 else (b"%d-./_azAZ09" % (100 * j + i))[:10]
                w.append(s)
                e = R.I.getitem(R.get(p, "Prot"), i)
                R.set(e, "P%d" % j, R.I.call(cb, [s], {}))
        must_bytes(R, pbytes(R, p), R.cat(b"\x09\x80", bytes([n]), *w), "layout-A2", "serialised A2 with %d protocols" % n)
        sz = R.get(p, "size")
        must_num(R, sz, 3 + 20 * n, "size-A2", "size of A2")
        # legal strings survive the round trip
        src = R.cat(b"\x09\x80", bytes([n]), *w)
        o = R.call(R.cls(AA, "A2Packet"), src_buf=src)
        R.check(o[0] == "ret" or n < 20, "reparse-A2", lambda: "parsing an A2 with %d legal protocols raises %s" % (n, R.outcome(o)))
        if o[0] == "ret":
            must_bytes(R, pbytes(R, o[1]), src, "roundtrip-A2", "re-serialised A2")
            for i in range(n):
                e = R.I.getitem(R.get(o[1], "Prot"), i)
                for j in (1, 2):
                    must_bytes(R, fbytes(R, R.get(e, "P%d" % j)), w[2 * i + j - 1], "field-prot", "parsed P%d of protocol %d" % (j, i))


def roundtrip(R, p, want, mod, cls, what):
    b = pbytes(R, p)
    if not R.check(R.is_(b, want), "layout-" + cls, lambda: "%s serialises to %s, the specification says %s" % (cls, R.sh(b), R.sh(want))):
        return None
    must_num(R, R.get(p, "size"), R.ctx.blen(want), "size-" + cls, "size of " + cls)
    o = R.call(R.cls(mod, cls), src_buf=b)
    if not R.check(o[0] == "ret", "reparse-" + cls, lambda: "parsing the serialised %s raises %s" % (cls, R.outcome(o))):
        return None
    q = o[1]
    b2 = pbytes(R, q)
    R.check(R.is_(b2, want), "roundtrip-" + cls, lambda: "parsing %s and serialising again gives %s" % (R.sh(want), R.sh(b2)))
    for e in R.evs("oob"):
        R.check(False, "memory", lambda: R.sh(list(e.data)), e)
    return q


RESERVED = {"M1Packet": (5, 0xFE), "M2Packet": (1, 0x7E), "M3Packet": (1, 0xFF), "M4Packet": (1, 0xFF), "EncryptedPacket": (1, 0x7F),
            "AppPacket": (1, 0xFF), "MultiAppPacket": (1, 0xFF), "A1Packet": (1, 0xFF), "A2Packet": (1, 0x7E)}


def c13_parse(R, mod, cls):
    """an arbitrary byte string that parses serialises to itself"""
    m = R.inp("src")
    o = R.call(R.cls(mod, cls), src_buf=m)
    if o[0] != "ret":
        return
    off, mask = RESERVED[cls]
    f = R.sl(m, off, off + 1)
    for b in range(8):
        if mask >> b & 1 and not R.ctx.eq0(lin(R.ctx.getbits(f, b, 1))):
            return          # reserved bits set: not a well-formed packet
    if cls == "M2Packet":
        if R.ctx.eq0(lsub(lin(R.ctx.getbits(f, 0, 1)), 1)) and R.ctx.eq0(lin(R.ctx.getbits(f, 7, 1))):
            return          # no-such-server without the implied last flag: not well formed
    b = pbytes(R, o[1])
    R.check(R.is_(b, m), "roundtrip-" + cls, lambda: "parsing a well-formed %s and serialising it gives %s instead of the input" % (cls, R.sh(b)))
    tpos = {"M1Packet": 6, "M2Packet": 2, "M3Packet": 2, "M4Packet": 2, "AppPacket": 2, "MultiAppPacket": 2}.get(cls)
    if tpos:
        v = num(R, R.get(data(R, o[1]), "Time"))
        R.check(v is not None and R.ctx.known_eq0(lsub(v, lin(R.ctx.dec(R.sl(m, tpos, tpos + 4))))) is True, "field-time",
                lambda: "parsed Time is %s" % R.sh(v))


    for n, off, w, hi in INTS_AT.get(cls, ()):
        v = num(R, R.get(data(R, o[1]), n))
        wire = lin(R.ctx.dec(R.sl(m, off, off + w)))
        if R.ctx.known_le0(lsub(wire, hi)) is not True and not R.ctx.le(wire, Lin(hi)):
            return
        R.check(v is not None and R.ctx.known_eq0(lsub(v, wire)) is True, "field-" + n, lambda: "parsed %s is %s, the wire says %s" % (n, R.sh(v), R.sh(wire)))


def wellformed(R, cls, t, n):
    """a well-formed packet of the class with unknown field values; variable parts n bytes long"""
    i = lambda x, w: R.inp("%s_%s" % (t, x), w)
    return {"M1Packet": lambda: R.cat(b"SCv2\x01\x01", i("time", 4), i("key", 32), i("sig", 32)), "M2Packet": lambda: R.cat(b"\x02\x00", i("time", 4), i("key", 32)),
            "M3Packet": lambda: R.cat(b"\x03\0", i("time", 4), i("key", 32), i("sig", 64)), "M4Packet": lambda: R.cat(b"\x04\0", i("time", 4), i("key", 32), i("sig", 64)),
            "EncryptedPacket": lambda: R.cat(b"\x06\0", i("body", 16 + n)), "AppPacket": lambda: R.cat(b"\x05\0", i("time", 4), i("data", n)),
            "MultiAppPacket": lambda: R.cat(b"\x0b\0", i("time", 4), b"\x02\0", bytes([n, 0]), i("a", n), b"\x03\0", i("b", 3)),
            "A1Packet": lambda: R.cat(b"\x08\0\x01\x20\0", i("key", 32)), "A2Packet": lambda: b"\x09\x80\x02" + (b"%s-one......two......./three...four" % t.encode())[:40].ljust(40, b"-")}[cls]()


def c13_two(R, mod, cls, n):
    """packet objects are independent: making, changing or reading another one of the class changes nothing in the first"""
    m1, m2 = wellformed(R, cls, "a", n), wellformed(R, cls, "b", n)
    o1, o2 = R.call(R.cls(mod, cls), src_buf=m1), R.call(R.cls(mod, cls), src_buf=m2)
    if not R.check(o1[0] == o2[0] == "ret", "reparse-" + cls, lambda: "a well-formed %s is refused: %s" % (cls, R.outcome(o1 if o1[0] != "ret" else o2))):
        return
    for o, m, w in ((o1, m1, "first"), (o2, m2, "second")):
        b = pbytes(R, o[1])
        R.check(R.is_(b, m), "packets-share", lambda: "with two %s objects alive the %s one serialises to %s instead of %s" % (cls, w, R.sh(b), R.sh(m)))
    q = R.new(mod, cls)
    b0 = pbytes(R, q)
    o = R.call(R.cls(mod, cls))
    R.check(o[0] == "ret" and R.is_(pbytes(R, o[1]), b0), "packets-share", lambda: "two new %s objects differ" % cls)
    if cls in TIMES_AT:
        setf(R, data(R, q), "Time", u32(R))
        b1 = pbytes(R, o[1]) if o[0] == "ret" else None
        R.check(R.is_(b1, b0), "packets-share", lambda: "setting the time of one %s changes another: %s" % (cls, R.sh(b1)))
    fresh = R.new(mod, cls)
    b1 = pbytes(R, fresh)
    R.check(R.is_(b1, b0), "packets-share", lambda: "a new %s is %s after others were used" % (cls, R.sh(b1)))


# integer fields besides Time: (name, offset, width, largest value in use)
INTS_AT = {"MultiAppPacket": (("Count", 6, 2, 65535),), "A1Packet": (("AddressType", 2, 1, 255), ("AddressSize", 3, 2, 65535)), "A2Packet": (("Count", 2, 1, 127),)}
TIMES_AT = {"M1Packet": 6, "M2Packet": 2, "M3Packet": 2, "M4Packet": 2, "AppPacket": 2, "MultiAppPacket": 2}


def c13_int(R, mod, cls, field, off, w, hi):
    """every value of an integer field stands in its place, little-endian, and reads back; nothing else changes"""
    p = R.new(mod, cls)
    d = data(R, p)
    before = R.bts(R.I.call(R.I.B.types["bytes"], [d], {}))
    v = R.sym("value", 0, hi)
    setf(R, d, field, v)
    must_num(R, R.get(data(R, p), field), v, "field-" + field, "%s read back" % field)
    b = R.bts(R.I.call(R.I.B.types["bytes"], [d], {}))
    n = R.ctx.blen(before)
    must_bytes(R, b, R.cat(R.sl(before, 0, off), R.le(v, w), R.sl(before, off + w, n)), "layout-" + field, "%s with %s set" % (cls, field))
    for e in R.evs("trunc"):
        R.check(False, "field-overflow", lambda: "%s does not fit %s" % (R.sh(list(e.data)), field), e)


PACKETS = [(V2, "M1Packet"), (V2, "M2Packet"), (V2, "M3Packet"), (V2, "M4Packet"), (V2, "EncryptedPacket"), (V2, "AppPacket"),
           (V2, "MultiAppPacket"), (AA, "A1Packet"), (AA, "A2Packet")]


def counts(tier):
    """numbers of messages worth trying one by one: beyond 8 bits, and around the constants of the sources"""
    c = {300, 1500} | ({22000} if tier == "thorough" else set())
    for v in mined(("v2", "a1a2", "util"), 20, 20000):
        c |= {v, v + 1}
    small = sorted(n for n in c if n < 300)
    return small[-6:] + [n for n in sorted(c) if n >= 300][:12]


def c13_scenarios(tier):
    w = ["M1", "M1key", "M2", "M3", "M4", "Encrypted", "App", "MultiApp1", "MultiApp2", "MultiApp3", "A1", "A1key", "A2none", "A2default", "A2x1", "A2x2"]
    if tier == "thorough":
        w += ["MultiApp4", "MultiApp5", "A2x3"]
    w += ["A2x%d" % n for n in (21, 64, 127)]
    w += ["MultiAppx%d" % n for n in counts(tier)]
    r = [Scn("serialise %s" % x, lambda R, x=x: c13_build(R, x), env=LONG if "x" in x else None) for x in w]
    r += [Scn("parse %s" % c, lambda R, a=(m, c): c13_parse(R, *a)) for m, c in PACKETS]
    r += [Scn("two %s objects (%d bytes)" % (c, n), lambda R, a=(m, c, n): c13_two(R, *a)) for m, c in PACKETS for n in ((0, 5) if "App" in c or "Enc" in c else (5,))]
    for m, c in PACKETS:
        for f, off, wd, hi in INTS_AT.get(c, ()) + ((("Time", TIMES_AT[c], 4, 0xffffffff),) if c in TIMES_AT else ()):
            r.append(Scn("%s.%s, all values" % (c, f), lambda R, a=(m, c, f, off, wd, hi): c13_int(R, *a)))
    return r


# ------------------------------------------------------------------ C14
def spec_ok(R, cls, m):
    """(holds, reason) whether m, accepted as cls, is consistent with the specification; partitions where the analysed code left it open"""
    ctx = R.ctx
    n = ctx.blen(m)

    def ty(off, code):
        return ctx.le(Lin(off + 1), n) and R.same(R.sl(m, off, off + 1), bytes([code]))
    if cls == "M1Packet":
        return valid_m1(R, m) is not None, "type, indicator and length of M1"
    if cls in ("M2Packet", "M3Packet", "M4Packet"):
        code, size = {"M2Packet": (2, 38), "M3Packet": (3, 102), "M4Packet": (4, 102)}[cls]
        return ctx.eq0(lsub(n, size)) and ty(0, code), "type %d and size %d" % (code, size)
    if cls == "EncryptedPacket":
        return ctx.le(Lin(18), n) and ty(0, 6), "type 6 and a body of at least 16 bytes"
    if cls == "AppPacket":
        return ctx.le(Lin(6), n) and ty(0, 5), "type 5 and at least 6 bytes"
    if cls == "A1Packet":
        return valid_a1(R, m) is not None, "type, address type and size of A1"
    if cls == "MultiAppPacket":
        if not (ctx.le(Lin(8), n) and ty(0, 11)):
            return False, "type 11 and at least 8 bytes"
        cnt = lin(ctx.dec(R.sl(m, 6, 8)))
        off = Lin(8)
        if ctx.eq0(cnt):
            return False, "a count of at least 1"
        i = 0
        while not ctx.eq0(lsub(cnt, i)):
            i += 1
            if i > 12:
                raise Cut("messages")
            if not ctx.le(ladd(off, 2), n):
                return False, "%d complete messages" % i
            l = lin(ctx.dec(R.sl(m, off, ladd(off, 2))))
            off = ladd(ladd(off, 2), l)
            if not ctx.le(off, n):
                return False, "%d complete messages" % i
        return ctx.eq0(lsub(off, n)), "no trailing bytes"
    if cls == "A2Packet":
        if not (ctx.le(Lin(3), n) and ty(0, 9)):
            return False, "type 9 and at least 3 bytes"
        f = R.sl(m, 1, 2)
        if not ctx.eq0(lsub(lin(ctx.getbits(f, 7, 1)), 1)):
            return False, "the last flag"
        cb = R.sl(m, 2, 3)
        sc = num(R, R.ctx.dec(cb, True))
        uc = num(R, R.ctx.dec(cb, False))
        if ctx.known_le0(lmul(sc, -1)) is not True and ctx.known_le0(lsub(uc, 127)) is not True:
            if not (ctx.le0(lmul(sc, -1)) if ("dec", cb, True) in ctx.bounds else ctx.le0(lsub(uc, 127))):
                return False, "a count of 0 to 127"
        if not any(ctx.known_eq0(lsub(n, ladd(lmul(c, 20), 3))) is True for c in (sc, uc)):
            if not ctx.eq0(lsub(n, ladd(lmul(sc, 20), 3))):
                return False, "a length of 3 + 20 * count"
        if ctx.eq0(lsub(lin(ctx.getbits(f, 0, 1)), 1)):
            return ctx.eq0(lsub(n, 3)), "no protocols with no-such-server"
        i = 0
        while not ctx.eq0(lsub(n, 3 + 20 * i)):
            for j in (0, 1):
                r = legal_string(R, R.sl(m, 3 + 20 * i + 10 * j, 13 + 20 * i + 10 * j), m)
                if r is not True:
                    return False, "legal characters in P%d of protocol %d (accepted: %r)" % (j + 1, i + 1, r)
            i += 1
            if i > 6:
                raise Cut("protocols")
        return True, ""
    raise Missing(cls)


def legal_string(R, s, m):
    """True, or a string the collected facts admit although it has an illegal character"""
    ctx = R.ctx
    s = ctx.renorm(s)
    if isinstance(s, bytes):
        return True if all(b in LEGAL for b in s) else s
    facts, allowed = [], {}
    for i in range(10):
        b = ctx.renorm(R.sl(s, i, i + 1))
        if isinstance(b, bytes):
            allowed[i] = frozenset(b)
            continue
        l = ctx.norm(lin(ctx.dec(b)))
        ok = set(range(256))
        lo, hi = ctx.range(l)
        ok &= set(range(lo or 0, (hi if hi is not None else 255) + 1))
        for k, v in ctx.facts.items():
            if k[0] == "inset" and ctx.norm(k[1]) == l:
                ok = ok & set(k[2]) if v else ok - set(k[2])
            elif k[0] == "eq0" and v is False:
                d = ctx.norm(lsub(k[1], l))
                e = ctx.norm(ladd(k[1], l))
                if not d.t:
                    ok.discard(-d.c)
                elif not e.t:
                    ok.discard(e.c)
        if len(ok) < 256:
            allowed[i] = frozenset(ok)
    for k, v in ctx.facts.items():
        if k[0] == "re":
            b = ctx.renorm(k[4]) if isinstance(k[4], SBytes) else k[4]
            if b == s:
                facts.append((k[1], k[2], k[3], v))
            elif isinstance(b, SBytes) and v:
                raise_if_overlap(R, b, s)
        elif k[0] not in ("re", "inset", "eq0", "beq", "len") and any(mentions(x, s) for x in k[1:]):
            raise Unsupported("unmodelled test %s of a protocol string" % k[0])
    try:
        w = relang.illegal_witness(facts, 10, LEGAL, allowed)
    except relang.Unknown as e:
        raise Unsupported("regular expression: %s" % e)
    return True if w is None else w


def mentions(x, s):
    if isinstance(x, SBytes):
        return x == s or any(g[0] == "s" and g[1] == s.segs[0][1] and len(s.segs) == 1 for g in x.segs)
    return False


def raise_if_overlap(R, b, s):
    if mentions(b, s):
        d = R.ctx.norm(R.ctx.blen(b))
        if d.t or d.c != 10:
            raise Unsupported("pattern over several protocol strings")


def c14(R, mod, cls, how="ctor"):
    m = R.inp("src")
    c = R.cls(mod, cls)
    if how == "ctor":
        o = R.call(c, src_buf=m)
    else:
        p = R.I.call(c, [], {})
        o = R.call(R.get(p, "from_bytes"), m)
    for e in R.evs("oob"):
        R.check(False, "memory", lambda: "parsing %s: %s" % (cls, R.sh(list(e.data))), e)
    if o[0] == "exc":
        R.check(R.exc_is(o[1], "BadPeer"), "parse-exception", lambda: "parsing as %s raises %s instead of BadPeer" % (cls, R.outcome(o)))
        return
    R.obl += 1
    ok, why = spec_ok(R, cls, m)
    R.check(ok, "accepts-malformed", lambda: "%s accepts a byte string that violates: %s" % (cls, why))


def c14_long(R, cls, n, what):
    """packets with many parts, one of them wrong"""
    if cls == "MultiAppPacket":
        ms = [(b"%d" % i)[:1 + i % 7] for i in range(n)]
        cnt = n + {"count+1": 1, "count-1": -1}.get(what, 0)
        raw = b"\x0b\0" + bytes(4) + cnt.to_bytes(2, "little") + b"".join(len(m).to_bytes(2, "little") + m for m in ms)
        raw = raw[:-1] if what == "short" else raw + b"x" if what == "extra" else raw
    else:
        ps = [b"SCv2------", b"----------"] * n
        if what == "first":
            ps[0] = b"SCv2-----\n"
        elif what == "last":
            ps[-1] = b"---------\n"
        elif what == "middle":
            ps[n] = b"\0---------"
        cnt = n + {"count+1": 1, "count-1": -1}.get(what, 0)
        raw = b"\x09\x80" + bytes([cnt]) + b"".join(ps)
        raw = raw[:-1] if what == "short" else raw + b"x" if what == "extra" else raw
    o = R.call(R.cls(V2 if cls == "MultiAppPacket" else AA, cls), src_buf=raw)
    R.check(o[0] == "exc" and R.exc_is(o[1], "BadPeer"), "accepts-malformed" if o[0] == "ret" else "parse-exception",
            lambda: "parsing a %s with %d parts that is malformed (%s) ends with %s" % (cls, n, what, R.outcome(o)))


def c14_scenarios(tier):
    r = []
    for n in counts(tier):
        for w in ("extra", "short", "count+1", "count-1"):
            r.append(Scn("MultiAppPacket of %d messages: %s" % (n, w), lambda R, a=("MultiAppPacket", n, w): c14_long(R, *a), env=LONG))
    for n in (21, 127, 128, 200, 255):
        for w in ("extra", "short", "count+1", "count-1", "first", "middle", "last") if n < 128 else ("none",):
            r.append(Scn("A2Packet of %d protocols: %s" % (n, w), lambda R, a=("A2Packet", n, w): c14_long(R, *a), env=LONG))
    for m, c in PACKETS:
        for h in ("ctor", "from_bytes"):
            r.append(Scn("parse any bytes as %s (%s)" % (c, h), lambda R, a=(m, c, h): c14(R, *a), K=5 if tier == "thorough" else None))
    return r


# ------------------------------------------------------------------ C15
def c15(R, role, sync, buf, pin, refuse, null_time, nread, real=None):
    if real is None:
        setup(R)
    if role == "client":
        P = mk_client(R, sync=sync, buf=buf, pin=pin, refuse=refuse, null_time=null_time)
    else:
        P = mk_server(R, sync=sync, buf=buf, refuse=refuse, null_time=null_time)
    out = R.run(P.s, "handshake", sync=sync)
    c15_judge(R, out, "handshake()")
    if out[0] == "ret" and R.get(P.s, "app_channel") is not None:
        for i in range(nread):
            out = R.run(app(R, P), "read", sync=sync)
            c15_judge(R, out, "read() no. %d of the application channel" % (i + 1))
            if out[0] != "ret":
                break


def c15_judge(R, out, what):
    for e in R.evs("oob"):
        R.check(False, "memory", lambda: "%s: %s" % (what, R.sh(list(e.data))), e)
    R.check(out[0] != "exc" or R.exc_is(out[1], "ComException"), "foreign-exception",
            lambda: "received data makes %s raise %s" % (what, R.outcome(out)))


def c15_app(R, role, n, refuse):
    setup(R)
    ch = Chan(R, "wire", feed(R, "rx"))
    ec = enc_channel(R, role, ch, key=R.inp("key", 32))
    A = R.new("saltchannel.v2.app_channel_v2", "AppChannelV2", ec, R.keeper("c").obj, R.checker("c", refuse).obj)
    for i in range(n):
        out = R.run(A, "read")
        c15_judge(R, out, "read() no. %d of the application channel" % (i + 1))


def c15_a1(R, sync):
    ch = Chan(R, "wire", feed(R, "rx"))
    s = R.new("saltchannel.a1a2.a1_client_session", "A1ClientSession", ch.obj)
    out = R.run(s, "do_a1a2", sync=sync)
    c15_judge(R, out, "do_a1a2()")
    if out[0] == "ret":
        R.check(R.get(s, "a2") is not None, "a2-missing", "do_a1a2() returns without an A2")


def c15_scenarios(tier):
    r = []
    big = tier == "thorough"
    for ro in ("client", "server"):
        for s in (False, True):
            for b in (False, True):
                r.append(Scn("%s handshake (sync=%s buffering=%s)" % (ro, yn(s), yn(b)), lambda R, a=(ro, s, b, True, False, False, 0): c15(R, *a)))
        r.append(Scn("%s handshake, default time checking" % ro, lambda R, a=(ro, False, False, False, False, True, 0): c15(R, *a)))
        r.append(Scn("%s handshake, refusing time checker" % ro, lambda R, a=(ro, False, False, True, True, False, 0): c15(R, *a)))
        for be in BACKENDS:
            r.append(Scn("%s handshake over back end %s" % (ro, be[0]), lambda R, a=(ro, False, False, False, False, True, 0, True): c15(R, *a), env=be[1]))
        r.append(Scn("%s application reads" % ro, lambda R, a=(ro, 2 if big else 1, False): c15_app(R, *a), K=4 if big else None))
    r.append(Scn("application reads with a refusing time checker", lambda R: c15_app(R, "client", 1, True)))
    for s in (False, True):
        r.append(Scn("A1 client (sync=%s)" % yn(s), lambda R, s=s: c15_a1(R, s)))
    return r


# ------------------------------------------------------------------ C16 / C17: transports
class Pipe:
    """the byte stream below a stream transport: everything received is the input term `stream`, delivered in arbitrary chunks;
    fail: every operation may fail, eof: the stream may end anywhere"""

    def __init__(self, R, fail=False, eof=False, chunks=3):
        self.R, self.ctx, self.I = R, R.ctx, R.I
        self.data = R.inp("stream")
        self.pos = Lin(0)
        self.fail, self.eof, self.chunks = fail, eof, chunks
        self.ended = False
        self.out = []
        self.failed = []        # events of failures and of the end of the stream
        self.nread = 0
        self.nops = 0

    def may_fail(self, what, exc="ConnectionResetError"):
        self.nops += 1
        if self.fail and self.R.ctx.opaque(("transportfails", self.nops), "%s fails" % what):
            self.failed.append(self.I.event("transportfail", what))
            kinds = (exc, "TimeoutError", "OSError") + (("BrokenPipeError",) if what.startswith(("send", "drain", "write")) else ())
            self.I.throw(kinds[self.ctx.choose(len(kinds), "kind of failure")], "transport")

    def at_end(self):
        if self.ended:
            return True
        if self.eof and self.ctx.opaque(("eof", self.nops), "stream ends"):
            self.ctx.assume_eq0(lsub(self.ctx.blen(self.data), self.pos))
            self.ended = True
            self.failed.append(self.I.event("eof"))
            return True
        return False

    def count(self, n):
        n = self.I.B.unwrap(n) if isinstance(n, Obj) else n
        if isinstance(n, bool):
            n = int(n)
        if isinstance(n, Top):
            raise Unsupported("unknown byte count")
        if not isinstance(n, (int, Lin)):
            self.I.throw("TypeError", "an integer is required")
        return lin(n)

    def take(self, k):
        ctx = self.ctx
        p, e = self.pos, ctx.norm(ladd(self.pos, k))
        if ctx.known_le0(lsub(1, k)) is True:
            ctx.assume_le0(lsub(ladd(p, 1), ctx.blen(self.data)))
        ctx.assume_le0(lsub(e, ctx.blen(self.data)))
        self.pos = e
        self.nread += 1
        return ctx.bslice(self.data, p, e) if ctx.known_eq0(lsub(p, e)) is not True else b""

    def recv(self, n, flags=0, peek=False):
        """up to n bytes"""
        ctx = self.ctx
        n = self.count(n)
        if ctx.le0(ladd(n, 1)):
            self.I.throw("ValueError", "negative buffersize in recv")
        self.may_fail("recv")
        if isinstance(flags, int) and flags & 2:
            raise Unsupported("MSG_PEEK")
        if ctx.eq0(n):
            return b""
        ctx.assume_le0(lsub(1, n))
        if self.at_end():
            return b""
        if isinstance(flags, int) and flags & 256 and not self.eof:
            return self.take(n)
        if self.chunks > 0 and not ctx.known_eq0(lsub(n, 1)) and ctx.opaque(("chunk", self.nops), "a shorter chunk arrives"):
            self.chunks -= 1
            k = self.R.sym("chunk%d" % self.nops, 1, None)
            ctx.assume_le0(ladd(lsub(k, n), 1))
            return self.take(k)
        return self.take(n)

    def recv_into(self, buf, n=0, flags=0):
        if isinstance(buf, BArr):
            buf = MView(buf, Lin(0), self.ctx.blen(buf.v))
        if not isinstance(buf, MView):
            raise Unsupported("recv_into target")
        n = self.count(n)
        size = self.ctx.blen(self.R.bts(buf))
        if self.ctx.known_eq0(n) is True:
            n = size
        elif not self.ctx.le(n, size):
            self.I.throw("ValueError", "buffer too small for requested bytes")
        d = self.recv(n, flags)
        k = self.ctx.blen(d)
        mem = buf.base
        if not isinstance(mem, BArr):
            raise Unsupported("recv_into target")
        lo = lin(buf.lo)
        v = mem.v
        c = self.ctx
        mem.v = c.cat([c.pyslice(v, Lin(0), lo), d, c.pyslice(v, c.norm(ladd(lo, k)), None)])
        return pyint(c.norm(k))

    # -------------------------------- StreamReader / StreamWriter
    def readexactly(self, n):
        ctx = self.ctx
        n = self.count(n)
        if ctx.le0(ladd(n, 1)):
            self.I.throw("ValueError", "readexactly size can not be less than zero")
        self.I.event("suspend", "readexactly")
        self.may_fail("readexactly")
        if ctx.eq0(n):
            return b""
        ctx.assume_le0(lsub(1, n))
        self.nops += 1
        if self.ended or (self.eof and ctx.opaque(("eof", self.nops), "stream ends within the requested bytes")):
            left = lsub(ctx.blen(self.data), self.pos)
            ctx.assume_le0(ladd(lsub(left, n), 1))
            part = self.take(left)
            self.ended = True
            self.failed.append(self.I.event("eof"))
            e = self.I.call(self.I.import_("asyncio").ns["IncompleteReadError"], [part, pyint(n)], {})
            raise PyExc(e)
        self.I.event("streamread")
        return self.take(n)

    def read(self, n=-1):
        ctx = self.ctx
        n = self.count(n)
        self.I.event("suspend", "read")
        if ctx.le0(ladd(n, 1)):
            raise Unsupported("read until end of stream")
        r = self.recv(n)
        self.I.event("streamread")
        return r

    def weird(self, what):
        raise Unsupported("StreamReader." + what)

    def write(self, d):
        b = self.R.bts(d)
        if b is None:
            self.I.throw("TypeError", "data argument must be a bytes-like object")
        self.may_fail("write")
        self.I.event("streamwrite", b)
        self.out.append(b)

    def drain(self):
        self.I.event("suspend", "drain")
        self.may_fail("drain")

    def sendall(self, d, *f):
        b = self.R.bts(d)
        if b is None:
            self.I.throw("TypeError", "a bytes-like object is required")
        self.may_fail("sendall", "BrokenPipeError")
        self.I.event("streamwrite", b)
        self.out.append(b)

    def send(self, d, *f):
        ctx = self.ctx
        b = self.R.bts(d)
        if b is None:
            self.I.throw("TypeError", "a bytes-like object is required")
        self.may_fail("send", "BrokenPipeError")
        n = ctx.norm(ctx.blen(b))
        if ctx.eq0(n):
            return 0
        if self.chunks > 0 and ctx.known_eq0(lsub(n, 1)) is not True and ctx.opaque(("sent", self.nops), "a part is sent"):
            self.chunks -= 1
            k = self.R.sym("sent%d" % self.nops, 1, None)
            ctx.assume_le0(ladd(lsub(k, n), 1))
            b = ctx.bslice(b, Lin(0), k)
            n = k
        self.I.event("streamwrite", b)
        self.out.append(b)
        return pyint(n)

    def sendmsg(self, bufs, *a):
        return self.send(self.I.callm(b"", "join", list(self.I.B.iterate(bufs))))

    def sock(self):
        R, I = self.R, self.I

        def un(name):
            def f(I, a, k):
                raise Unsupported("socket." + name)
            return NMeth(name, f)
        m = {n: NMeth(n, lambda I, a, k, n=n: getattr(self, n)(*a[1:], **{x: y for x, y in k.items()})) for n in ("recv", "recv_into", "sendall", "send", "sendmsg")}
        for n in ("settimeout", "setblocking", "setsockopt", "shutdown"):
            m[n] = NMeth(n, lambda I, a, k: None)
        m["close"] = NMeth("close", lambda I, a, k: I.event("close"))
        m["gettimeout"] = NMeth("gettimeout", lambda I, a, k: None)
        m["fileno"] = NMeth("fileno", lambda I, a, k: 3)
        for n in ("makefile", "recvfrom", "recvmsg", "recvfrom_into", "getpeername", "getsockname", "detach", "dup"):
            m[n] = un(n)
        return Obj(R.ncls("socket", m))


def stream_channel(R, p, **k):
    rd = R.new("saltchannel.dev.client_server_a", "SaltChannelStreamReader", limit=65536, loop=p.loop)
    wr = R.new("saltchannel.dev.client_server_a", "SaltChannelStreamWriter", Top("transport"), Top("protocol"), rd, p.loop)
    for o in (rd, wr):
        o.ext = dict(o.ext or {}, stream=p)
    return R.new("saltchannel.channel", "AsyncioChannel", rd, wr, **k)


def transport(R, kind, **k):
    p = Pipe(R, **k)
    p.loop = R.I.models.loop_obj()
    if kind == "socket":
        return R.new("saltchannel.channel", "SocketChannel", p.sock()), p
    return stream_channel(R, p, loop=p.loop), p


def c16_read(R, kind, sync, n, chunks):
    ch, p = transport(R, kind, eof=True, chunks=chunks)
    ctx = R.ctx
    for i in range(n):
        start = p.pos
        out = R.run(ch, "read", sync=sync)
        if out[0] != "ret":
            R.obl += 1
            if out[0] == "exc" and ctx.known_le0(lsub(ladd(start, 4), p.pos)) is True:
                L = lin(ctx.dec(R.sl(p.data, start, ladd(start, 4))))
                end = ctx.norm(ladd(ladd(start, 4), L))
                if ctx.le(L, Lin((1 << 31) - 1)) and ctx.known_le0(lsub(p.pos, end)) is not True and ctx.lt(end, p.pos):
                    R.check(False, "consumption", lambda: "read() no. %d consumes the stream up to %s although the message ends at %s" % (i + 1, R.sh(ctx.norm(p.pos)), R.sh(end)))
            if out[0] == "exc" and not p.failed:        # neither end of stream nor failure: a readable message is refused
                have = ctx.known_le0(lsub(ladd(start, 4), p.pos)) is True
                if not have or ctx.le(lin(ctx.dec(R.sl(p.data, start, ladd(start, 4)))), Lin((1 << 31) - 1)):
                    R.check(False, "message-refused", lambda: "read() no. %d raises %s although the stream supplies all its bytes (%s consumed)" % (i + 1, R.outcome(out), R.sh(ctx.norm(lsub(p.pos, start)))))
            return
        v = R.bts(out[1])
        if not R.check(v is not None, "read-result", lambda: "read() returns %s" % R.sh(out[1])):
            return
        if not R.check(ctx.known_le0(lsub(ladd(start, 4), ctx.blen(p.data))) is True, "prefix", "read() returns although no length prefix has been received"):
            return
        L = lin(ctx.dec(R.sl(p.data, start, ladd(start, 4))))
        end = ctx.norm(ladd(ladd(start, 4), L))
        R.check(ctx.known_eq0(lsub(p.pos, end)) is True, "consumption", lambda: "read() no. %d has consumed the stream up to %s, the message ends at %s" % (i + 1, R.sh(ctx.norm(p.pos)), R.sh(end)))
        if ctx.known_le0(lsub(end, ctx.blen(p.data))) is True:
            R.check(R.is_(v, R.sl(p.data, ladd(start, 4), end)), "message", lambda: "read() no. %d returns %s instead of the framed message" % (i + 1, R.sh(v)))
        else:
            R.check(False, "message", "read() returns although the message is not complete")


def msgs_arg(R, n):
    return [R.inp("m%d" % (i + 1)) for i in range(n)]


def c16_write(R, kind, sync, n, calls, types=None):
    ch, p = transport(R, kind)
    ctx = R.ctx
    want = []
    for c in range(calls):
        ms = [R.inp("c%dm%d" % (c + 1, i + 1)) for i in range(n)]
        args = [BArr(m) for m in ms] if types == "bytearray" else ms
        out = R.run(ch, "write", *args, sync=sync, **({"is_last": True} if c else {}))
        if out[0] != "ret":
            big = any(ctx.known_le0(lsub(ctx.blen(m), (1 << 31) - 1)) is not True for m in ms)
            R.check(big, "write-fails", lambda: "write() of messages below 2 GiB raises %s although the transport works" % R.outcome(out))
            return
        for m in ms:
            want += [R.le(ctx.blen(m), 4), m]
        got = R.cat(*p.out) if p.out else b""
        w = R.cat(*want)
        R.check(R.is_(got, w), "framing", lambda: "write() sends %s, expected %s" % (R.sh(got), R.sh(w)))


def c16_scenarios(tier):
    r = []
    big = tier == "thorough"
    for k in ("socket", "stream"):
        for s in (False, True):
            r.append(Scn("%s: two reads, one split (sync=%s)" % (k, yn(s)), lambda R, a=(k, s, 2, 2 if big else 1): c16_read(R, *a)))
            r.append(Scn("%s: one read, split into many chunks (sync=%s)" % (k, yn(s)), lambda R, a=(k, s, 1, 5 if big else 3): c16_read(R, *a), K=8))
            for n in (1, 2, 3) + ((5,) if big else ()):
                r.append(Scn("%s: writes of %d messages (sync=%s)" % (k, n, yn(s)), lambda R, a=(k, s, n, 2): c16_write(R, *a)))
            r.append(Scn("%s: write of a bytearray (sync=%s)" % (k, yn(s)), lambda R, a=(k, s, 1, 1, "bytearray"): c16_write(R, *a)))
    return r


def c17(R, kind, sync, op, n, fail, eof):
    ch, p = transport(R, kind, fail=fail, eof=eof, chunks=1)
    if op == "read":
        outs = []
        for i in range(n):
            start = len(p.failed)
            out = R.run(ch, "read", sync=sync)
            c17_judge(R, out, p, start, "read()")
            if out[0] != "ret":
                break
    else:
        for last in (False, True):
            start = len(p.failed)
            out = R.run(ch, "write", *msgs_arg(R, n), sync=sync, **({"is_last": True} if last else {}))
            c17_judge(R, out, p, start, "write()")


def c17_judge(R, out, p, start, what):
    if out[0] == "exc":
        R.check(R.exc_is(out[1], "ComException"), "exception-kind", lambda: "%s raises %s" % (what, R.outcome(out)))
    elif out[0] == "ret":
        e = p.failed[start] if len(p.failed) > start else None
        R.check(e is None, "failure-ignored", lambda: "%s returns %s although the transport %s" % (what, R.sh(out[1]), "ended" if e.kind == "eof" else "failed in " + str(e.data[0])), e)
    else:
        R.obl += 1


def c17_scenarios(tier):
    r = []
    for k in ("socket", "stream"):
        for s in (False, True):
            r.append(Scn("%s: reads, the stream may end (sync=%s)" % (k, yn(s)), lambda R, a=(k, s, "read", 2, False, True): c17(R, *a), K=6))
            r.append(Scn("%s: reads, any operation may fail (sync=%s)" % (k, yn(s)), lambda R, a=(k, s, "read", 2, True, False): c17(R, *a), K=6))
            for n in (1, 2, 3):
                r.append(Scn("%s: write of %d messages, any operation may fail (sync=%s)" % (k, n, yn(s)), lambda R, a=(k, s, "write", n, True, False): c17(R, *a)))
    return r


# ------------------------------------------------------------------ C18: time stamps
def stamped(R, b, cands):
    return any(R.is_(b, R.le(v, 4)) for v in cands)


def c18_times(R, P, calls):
    """obligations on the time fields of everything P sent; calls: [(first event, last event)] of the application writes"""
    K = P.keeper
    reads = [e.n for _, e in P.chan.reads]
    for m, e in P.chan.flat():
        k = kind(R, m)
        nm = name_of(k)
        call = next((c for c in calls if c[0] <= e.n < c[1]), None)
        lastread = max([n for n in reads if n < e.n], default=-1)
        first = [v for v, t in K.first if t.n < e.n]
        if nm == "M1":
            b, c, what = R.sl(m, 6, 10), first, "get_first_time()"
        elif nm == "M2":
            b, c, what = R.sl(m, 2, 6), [v for v, t in K.first if reads and reads[0] < t.n < e.n], "get_first_time() after M1 was received"
        elif nm == "M3":
            b = R.sl(k[3], 2, 6)
            c = [v for v, t in K.times + (K.first if P.buf else []) if reads and reads[0] < t.n < e.n]
            what = "get_time() for M3"
        elif nm == "M4" and call is None:
            b, c, what = R.sl(k[3], 2, 6), [v for v, t in K.times if lastread < t.n < e.n], "get_time() after M3 was received"
        elif nm in ("M4", "App", "MultiApp") and call is not None:
            b, c, what = R.sl(k[3], 2, 6), [v for v, t in K.times if call[0] <= t.n < e.n], "get_time() within this write()"
        else:
            continue
        R.check(stamped(R, b, c), "time-" + nm, lambda: "the time of the %s sent is %s, not the value of %s" % (nm, R.sh(R.ctx.renorm(b)), what), e)


def c18_send(R, role, sync, buf, writes):
    setup(R)
    P = mk_client(R, sync=sync, buf=buf) if role == "client" else mk_server(R, sync=sync, buf=buf)
    out = handshake(R, P, sync)
    calls = []
    if out[0] == "ret" and newchan(R, P) is not None:
        a = app(R, P)
        for i, n in enumerate(writes):
            s = len(R.I.events)
            R.run(a, "write", *[R.inp("w%d_%d" % (i, j)) for j in range(n)], sync=sync, **({"is_last": True} if i % 2 else {}))
            calls.append((s, len(R.I.events)))
    c18_times(R, P, calls)
    c18_received(R, P, out)


def given(R, P, fn, b, after=-1):
    """the checker was given the decoded value of b"""
    for k, v, e in P.checker.seen:
        v = num(R, v)
        if k == fn and e.n > after and v is not None and R.ctx.known_eq0(lsub(v, lin(R.ctx.dec(b)))) is True:
            return True
    return False


def c18_received(R, P, out):
    if out[0] != "ret" or newchan(R, P) is None:
        return
    rx = P.chan.reads
    lo = 2 if P.role == "client" else 6
    m = rx[0][0]
    R.check(R.ctx.known_le0(lsub(Lin(lo + 4), R.ctx.blen(m))) is True and given(R, P, "report_first_time", R.sl(m, lo, lo + 4)), "first-time-unchecked",
            "the handshake completes although the time of the peer's first message was not reported to the time checker")
    op = [e for e in R.evs("open") if e.data[0]]
    if op:
        p = R.T.open(op[0].data[1], op[0].data[2], op[0].data[3])
        R.check(given(R, P, "check_time", R.sl(p, 2, 6)), "time-unchecked", "the handshake completes although the time of %s was not checked" % ("M3" if P.role == "client" else "M4"))


def c18_refuse(R, role, sync, buf):
    setup(R)
    P = mk_client(R, sync=sync, buf=buf, refuse=True) if role == "client" else mk_server(R, sync=sync, buf=buf, refuse=True)
    out = handshake(R, P, sync)
    c18_received(R, P, out)
    if P.checker.refused:
        e = P.checker.refused[0]
        R.check(out[0] == "exc" and R.exc_is(out[1], "TimeException"), "refusal-lost", lambda: "the time checker refuses, but handshake() ends with %s" % R.outcome(out), e)
        for ms, last, w in P.chan.writes:
            R.check(w.n < e.n, "sends-after-refusal", "a message is sent after the time checker refused", w)
        if role == "server":
            R.check(R.get(P.s, "client_sig_key") is None, "identity-after-refusal", "client_sig_key is set after the time checker refused", e)


def c18_null(R, role, sync, buf):
    """with the default checker: a first time it refuses does not lead to a completed handshake"""
    setup(R)
    P = (mk_client if role == "client" else mk_server)(R, sync=sync, buf=buf, null_time=True)
    out = handshake(R, P, sync)
    if out[0] != "ret" or newchan(R, P) is None or not P.chan.reads:
        return
    m, lo = P.chan.reads[0][0], 2 if role == "client" else 6
    t = R.ctx.dec(R.sl(m, lo, lo + 4))
    o = R.call(R.get(R.get(P.s, "time_checker"), "report_first_time"), pyint(lin(t)))
    R.check(o[0] == "ret", "first-time-refused", lambda: "the handshake completes although the default time checker refuses the peer's first time (%s)" % R.outcome(o))


def c18_first(R):
    """the default checker refuses exactly the first times other than 0 and 1"""
    c = R.new("saltchannel.util.time", "NullTimeChecker")
    for t in sorted({0, 1, 2, 3, (1 << 32) - 1} | set(range(2, 70)) | {(1 << i) + d for i in range(2, 32) for d in (-1, 0, 1)}):
        o = R.call(R.get(c, "report_first_time"), t)
        R.check((o[0] == "ret") == (t < 2), "default-first-time", lambda: "the default time checker %s the first time %d" % ("accepts" if o[0] == "ret" else "refuses", t))
        if t > 1 and o[0] == "exc":
            R.check(R.exc_is(o[1], "BadPeer"), "default-first-time", lambda: "the default time checker refuses a first time with %s" % R.outcome(o))


def c18_app(R, role, sync, refuse, nread):
    setup(R)
    ch = Chan(R, "wire", feed(R, "rx", limit=nread))
    ec = enc_channel(R, role, ch, key=R.inp("key", 32))
    K, C = R.keeper("c"), R.checker("c", refuse)
    A = R.new("saltchannel.v2.app_channel_v2", "AppChannelV2", ec, K.obj, C.obj)
    checked = 0
    for i in range(nread):
        start, nref = len(R.I.events), len(C.refused)
        out = R.run(A, "read", sync=sync)
        fresh = [e for _, e in ch.reads if e.n >= start]
        ref = C.refused[nref] if len(C.refused) > nref else None
        if ref is not None:
            R.check(out[0] == "exc" and R.exc_is(out[1], "TimeException"), "refusal-lost", lambda: "the time checker refuses, but read() ends with %s" % R.outcome(out), ref)
            # nothing of the refused packet may be delivered later
            o2s = len(R.I.events)
            o2 = R.run(A, "read", sync=sync)
            R.check(o2[0] != "ret" or any(e.n >= o2s for _, e in ch.reads), "refused-data-delivered",
                    lambda: "after a refused packet the next read() delivers %s without receiving a new packet" % R.sh(o2[1]), ref)
            return
        if out[0] != "ret":
            return
        if fresh:
            op = [e for e in R.evs("open") if e.data[0] and e.n >= start]
            if not op:
                return
            p = R.T.open(op[-1].data[1], op[-1].data[2], op[-1].data[3])
            ok = any(k == "check_time" and e.n > op[-1].n and num(R, v) is not None and R.ctx.known_eq0(lsub(num(R, v), lin(R.ctx.dec(R.sl(p, 2, 6))))) is True
                     for k, v, e in C.seen)
            R.check(ok, "time-unchecked", "read() delivers data of a packet whose time was not given to the time checker")


def c18_honest(R, sync, bufc, bufs):
    """honest peers exchange application messages both ways; the session's own clock objects serve the application channel"""
    setup(R)
    W = Wire(R)
    cc, sc = W.end("client", "server"), W.end("server", "client")
    S = mk_server(R, sync=sync, buf=bufs, chan=sc)
    C = mk_client(R, sync=sync, buf=bufc, chan=cc)
    calls = {"client": [], "server": []}

    def w(P, n):
        s = len(R.I.events)
        o = R.run(app(R, P), "write", *[R.inp("%s%d" % (P.role, j)) for j in range(n)], sync=sync)
        calls[P.role].append((s, len(R.I.events)))
        return o

    def client():
        o = R.run(C.s, "handshake", sync=sync)
        if o[0] == "ret":
            w(C, 1)
            w(C, 2)
            for i in range(3):
                o = R.run(app(R, C), "read", sync=sync)
                if o[0] == "ret" and i == 1:
                    w(C, 1)             # while a message received with the last one is still waiting to be read
        return o

    def server():
        o = R.run(S.s, "handshake", sync=sync)
        if o[0] == "ret":
            for i in range(3):
                o = R.run(app(R, S), "read", sync=sync)
                if o[0] != "ret":
                    return o
                if i == 1:
                    w(S, 1)
            w(S, 2)
            o = R.run(app(R, S), "read", sync=sync)
        return o
    W.run({"client": client, "server": server})
    for P in (C, S):
        own = calls[P.role]
        c18_times(R, P, own)
        n = sum(1 for e in R.evs("timecheck") if e.data[0] == P.chan.name)
        packets = len(P.chan.reads)
        R.check(n >= packets, "time-unchecked", lambda: "%s received %d messages but checked only %d times" % (P.role, packets, n))


def c18_scenarios(tier):
    r = []
    big = tier == "thorough"
    for ro in ("client", "server"):
        for s in (False, True):
            for b in (False, True):
                r.append(Scn("%s: times sent (sync=%s buffering=%s)" % (ro, yn(s), yn(b)), lambda R, a=(ro, s, b, (1, 2, 1) if not big else (1, 2, 3, 0, 1)): c18_send(R, *a)))
                r.append(Scn("%s: time refused during the handshake (sync=%s buffering=%s)" % (ro, yn(s), yn(b)), lambda R, a=(ro, s, b): c18_refuse(R, *a)))
        for b in (False, True):
            r.append(Scn("%s: default time checker (buffering=%s)" % (ro, yn(b)), lambda R, a=(ro, False, b): c18_null(R, *a)))
        for f in (False, True):
            r.append(Scn("%s: application reads (refusing=%s)" % (ro, yn(f)), lambda R, a=(ro, False, f, 2 if big else 1): c18_app(R, *a)))
    for s in (False, True):
        for bc in (False, True):
            for bs in (False, True):
                r.append(Scn("honest peers (sync=%s bufferM4=%s bufferM2=%s)" % (yn(s), yn(bc), yn(bs)), lambda R, a=(s, bc, bs): c18_honest(R, *a)))
    r.append(Scn("first times and the default checker", c18_first))
    return r + hist([x for x in r if "handshake" in x.name or "times sent" in x.name], tier, ("(sync=no buffering=no)", "(sync=no buffering=yes)"), ("same", "retry", "reuse", "refused", "loop"))


# ------------------------------------------------------------------ C19: back ends
LIBS = {"native": ("saltchannel.saltlib.saltlib_native", "SaltLibNative"), "pynacl": ("saltchannel.saltlib.saltlib_pynacl", "SaltLibPyNaCl"),
        "tweetnaclext": ("saltchannel.saltlib.saltlib_tweetnaclext", "SaltLibTweetNaClExt")}


def memory_ok(R):
    for e in R.evs("oob", "badpad"):
        R.check(False, "memory" if e.kind == "oob" else "padding", lambda: "%s" % R.sh(list(e.data)), e)


OPS19 = {"sign": ("crypto_sign", (("m", None), ("sk", 64))), "sign_open": ("crypto_sign_open", (("sm", None), ("pk", 32))), "beforenm": ("crypto_box_beforenm", (("pk", 32), ("sk", 32))),
         "afternm": ("crypto_box_afternm", (("m", None), ("n", 24), ("k", 32))), "open_afternm": ("crypto_box_open_afternm", (("c", None), ("n", 24), ("k", 32))), "hash": ("crypto_hash", (("m", None),)),
         "box_keypair": ("crypto_box_keypair_not_random", (("secret", None),)), "sign_keypair": ("crypto_sign_keypair_not_random", (("secret", None),))}


def c19_after(R, lib, op, fresh, inst):
    """the operation after an earlier call that differs in the arguments `fresh`"""
    fn, args = OPS19[op]
    L = R.new(*LIBS[lib])
    R.call(R.get(L, fn), *[R.inp(("old_" if i in fresh else "") + n, w or (32 if "keypair" in op else None)) for i, (n, w) in enumerate(args)])
    c19(R, lib, op, L if inst else None)


def c19(R, lib, op, L=None):
    L = L or R.new(*LIBS[lib])
    T, ctx = R.T, R.ctx
    sexc = lambda o, n: R.exc_is(o, n, "saltchannel.saltlib.exceptions")
    start = len(R.I.events)
    failed = lambda: [e for e in R.evs("rcfail") if e.n >= start]

    def call(n, *a):
        return R.call(R.get(L, n), *a)

    def returns(out, want, what):
        """returns exactly want unless the library reported a failure, which must raise"""
        f = failed()
        if f:
            R.check(out[0] == "exc", "failure-ignored", lambda: "%s.%s returns %s although the library call %s failed" % (lib, what, R.sh(out[1]), f[0].data[0]), f[0])
        elif R.check(out[0] == "ret", "raises", lambda: "%s.%s raises %s although the library call succeeded" % (lib, what, R.outcome(out))):
            R.check(R.is_(out[1], want), "result", lambda: "%s.%s returns %s, expected %s" % (lib, what, R.sh(out[1]), R.sh(want)))
    if op == "sign":
        m, sk = R.inp("m"), R.inp("sk", 64)
        out = call("crypto_sign", m, sk)
        returns(out, R.cat(T.atom("sig", m, sk), m), "crypto_sign")
    elif op == "sign_open":
        sm, pk = R.inp("sm"), R.inp("pk", 32)
        out = call("crypto_sign_open", sm, pk)
        ok = [e for e in R.evs("verify") if e.data[0]]
        good = False
        if ctx.le(Lin(64), ctx.blen(sm)):
            good = any(R.is_(e.data[1], R.sl(sm, 0, 64)) and R.is_(e.data[2], R.sl(sm, 64, ctx.blen(sm))) and R.is_(e.data[3], pk) for e in ok)
        if out[0] == "ret":
            if R.check(good, "forgery-accepted", lambda: "%s.crypto_sign_open returns %s although the signature was not verified" % (lib, R.sh(out[1]))):
                R.check(R.is_(out[1], R.sl(sm, 64, ctx.blen(sm))), "result", lambda: "%s.crypto_sign_open returns %s instead of the signed message" % (lib, R.sh(out[1])))
        else:
            R.check(not good, "valid-refused", lambda: "%s.crypto_sign_open raises %s for a valid signature" % (lib, R.outcome(out)))
            R.check(sexc(out[1], "BadSignatureException"), "exception-kind", lambda: "%s.crypto_sign_open raises %s for a bad signature" % (lib, R.outcome(out)))
    elif op == "beforenm":
        pk, sk = R.inp("pk", 32), R.inp("sk", 32)
        out = call("crypto_box_beforenm", pk, sk)
        returns(out, R.dhk(pk, sk), "crypto_box_beforenm")
    elif op == "afternm":
        m, n, k = R.inp("m"), R.inp("n", 24), R.inp("k", 32)
        out = call("crypto_box_afternm", m, n, k)
        returns(out, T.atom("box", m, n, k), "crypto_box_afternm")
    elif op == "open_afternm":
        c, n, k = R.inp("c"), R.inp("n", 24), R.inp("k", 32)
        out = call("crypto_box_open_afternm", c, n, k)
        good = [e for e in R.evs("open") if e.data[0] and R.is_(e.data[1], c) and R.is_(e.data[2], n) and R.is_(e.data[3], k)]
        if out[0] == "ret":
            if R.check(bool(good), "forgery-accepted", lambda: "%s.crypto_box_open_afternm returns %s although the ciphertext was not authenticated" % (lib, R.sh(out[1]))):
                R.check(R.is_(out[1], T.open(c, n, k)), "result", lambda: "%s.crypto_box_open_afternm returns %s instead of the plaintext" % (lib, R.sh(out[1])))
        else:
            R.check(not good, "valid-refused", lambda: "%s.crypto_box_open_afternm raises %s for an authentic ciphertext" % (lib, R.outcome(out)))
            R.check(sexc(out[1], "BadEncryptedDataException"), "exception-kind", lambda: "%s.crypto_box_open_afternm raises %s for a bad ciphertext" % (lib, R.outcome(out)))
    elif op == "hash":
        m = R.inp("m")
        out = call("crypto_hash", m)
        returns(out, T.atom("sha512", m), "crypto_hash")
    elif op == "random":
        n = R.sym("n", 0, 1 << 20)
        out = call("randombytes", pyint(n))
        if R.check(out[0] == "ret", "raises", lambda: "%s.randombytes raises %s" % (lib, R.outcome(out))):
            a = T.atom_of(R.bts(out[1])) if R.bts(out[1]) is not None else None
            zero = ctx.known_eq0(n) is True and R.is_(out[1], b"")
            R.check(zero or a is not None and a[0] == "urandom" and ctx.known_eq0(lsub(a[1], n)) is True, "randombytes", lambda: "%s.randombytes(n) returns %s" % (lib, R.sh(out[1])))
    elif op in ("box_keypair", "sign_keypair"):
        s = R.inp("secret")
        fn = "crypto_box_keypair_not_random" if op == "box_keypair" else "crypto_sign_keypair_not_random"
        out = call(fn, s)
        if not ctx.eq0(lsub(ctx.blen(s), 32)):
            R.check(out[0] == "exc", "key-length", lambda: "%s.%s accepts a secret of a length other than 32" % (lib, fn))
        else:
            want = (T.xpub(s), s) if op == "box_keypair" else T.edkeys(s)
            f = failed()
            if f:
                R.check(out[0] == "exc", "failure-ignored", lambda: "%s.%s returns although the library call %s failed" % (lib, fn, f[0].data[0]), f[0])
            elif R.check(out[0] == "ret", "raises", lambda: "%s.%s raises %s" % (lib, fn, R.outcome(out))):
                v = out[1]
                v = tuple(R.I.B.iterate(v)) if not isinstance(v, (tuple, list)) else tuple(v)
                R.check(len(v) == 2 and R.is_(v[0], want[0]) and R.is_(v[1], want[1]), "result", lambda: "%s.%s returns %s" % (lib, fn, R.sh(v)))
    memory_ok(R)


def c19_twice(R, lib):
    """results of one call are not changed by a later one (buffers are not shared)"""
    L = R.new(*LIBS[lib])
    T = R.T
    m1, m2, n1, n2, k = R.inp("m1"), R.inp("m2"), R.inp("n1", 24), R.inp("n2", 24), R.inp("k", 32)
    h = [R.call(R.get(L, "crypto_hash"), m) for m in (m1, m2)]
    c = [R.call(R.get(L, "crypto_box_afternm"), m, n, k) for m, n in ((m1, n1), (m2, n2))]
    r = [R.call(R.get(L, "randombytes"), 32) for _ in range(2)]
    for i, m in enumerate((m1, m2)):
        R.check(h[i][0] == "ret" and R.is_(h[i][1], T.atom("sha512", m)), "hash-repeated", lambda: "hash no. %d is %s" % (i + 1, R.sh(h[i][1])))
        R.check(c[i][0] == "ret" and R.is_(c[i][1], T.atom("box", m, (n1, n2)[i], k)), "box-repeated", lambda: "ciphertext no. %d is %s" % (i + 1, R.sh(c[i][1])))
        R.check(r[i][0] == "ret" and R.ctx.known_eq0(lsub(R.ctx.blen(R.bts(r[i][1])), 32)) is True, "random-repeated", "randombytes(32) does not give 32 bytes")
    R.check(not R.is_(r[0][1], r[1][1]), "random-fresh", "two calls of randombytes return the same bytes")
    memory_ok(R)


def c19_scenarios(tier):
    r = []
    for lib in LIBS:
        for op in ("sign", "sign_open", "beforenm", "afternm", "open_afternm", "hash", "random", "box_keypair", "sign_keypair"):
            env = {"cells": True} if lib == "native" else {}
            r.append(Scn("%s: %s" % (lib, op), lambda R, a=(lib, op): c19(R, *a), env=env))
            if lib != "tweetnaclext":
                r.append(Scn("%s: %s, library calls may fail" % (lib, op), lambda R, a=(lib, op): c19(R, *a), env=dict(env, rcfail=True)))
            if op in OPS19:
                na = len(OPS19[op][1])
                for f in {1: ((0,),), 2: ((0,), (1,)), 3: ((0,), (1,), (2,))}[na] + (((),) if tier == "thorough" else ()):
                    r.append(Scn("%s: %s after a call with a different %s" % (lib, op, " and ".join(OPS19[op][1][i][0] for i in f) or "(nothing)"), lambda R, a=(lib, op, f, True): c19_after(R, *a), env=env))
        r.append(Scn("%s: repeated calls" % lib, lambda R, l=lib: c19_twice(R, l), env={"cells": True} if lib == "native" else {}))
    return r


# ------------------------------------------------------------------ C20: selection
ORDER = (("LIB_TYPE_NATIVE", "SaltLibNative"), ("LIB_TYPE_PYNACL", "SaltLibPyNaCl"), ("LIB_TYPE_TWEETNACL_EXT", "SaltLibTweetNaClExt"))
SL = "saltchannel.saltlib.saltlib"


def c20(R, want, via, real=None, before=()):
    avail = {}
    if real is None:
        def av(cls):
            return R.ctx.opaque(("available", cls.name), "%s is available" % cls.name)
        R.cfg["avail"] = av
        setup(R)
        avail = {n: ("available", n) for _, n in ORDER}
    S = R.cls(SL, "SaltLib")
    LT = R.cls(SL, "LibType")
    t = R.get(LT, want) if want is not None else None
    for w, v in before:         # requests of other users in the same process
        b = [] if w is None else [R.get(LT, w)]
        if v == "ctor":
            R.call(S, *b)
        elif v == "again":
            o = R.call(S)
            if o[0] == "ret":
                R.call(R.get(o[1], "getLib"), *b)
        else:
            R.call(R.get(S, "getLib"), *b)
    if via == "getLib":
        out = R.call(R.get(S, "getLib"), *([] if t is None else [t]))
    elif via == "ctor":
        out = R.call(S, *([] if t is None else [t]))
        if out[0] == "ret":
            out = ("ret", R.get(out[1], "api"))
    else:
        o = R.call(S)
        if o[0] != "ret":
            return
        out = R.call(R.get(o[1], "getLib"), *([] if t is None else [t]))
    is_av = (lambda n: real[n]) if real is not None else (lambda n: R.ctx.opaque(avail[n], "%s is available" % n))
    if want in (None, "LIB_TYPE_BEST"):
        exp = next((n for _, n in ORDER if is_av(n)), None)
    else:
        n = dict(ORDER)[want]
        exp = n if is_av(n) else None
    if exp is None:
        R.check(out[0] == "exc" and R.exc_is(out[1], "NoSuchLibException", "saltchannel.saltlib.exceptions"), "unavailable",
                lambda: "asking for %s, which is not available, gives %s" % (want, R.sh(out[1])))
    else:
        R.check(out[0] == "ret" and isinstance(out[1], Obj) and any(c.name == exp for c in out[1].cls.mro), "selection",
                lambda: "asking for %s gives %s, expected an instance of %s" % (want or "the default", R.sh(out[1]), exp))


def c20_scenarios(tier):
    r = []
    for via in ("getLib", "ctor", "again"):
        for w in (None, "LIB_TYPE_BEST", "LIB_TYPE_NATIVE", "LIB_TYPE_PYNACL", "LIB_TYPE_TWEETNACL_EXT"):
            r.append(Scn("%s(%s), any availability" % (via, w or ""), lambda R, a=(w, via): c20(R, *a)))
    W = (None, "LIB_TYPE_NATIVE", "LIB_TYPE_PYNACL", "LIB_TYPE_TWEETNACL_EXT")
    for w in W:
        for v in ("getLib", "ctor", "again") if tier == "thorough" else ("getLib", "ctor"):
            for w0 in W:
                for v0 in ("getLib", "ctor", "again"):
                    if v == "ctor" and v0 != "getLib":
                        continue            # one facade per process: a second construction gives the first one by design
                    r.append(Scn("%s(%s) after %s(%s), any availability" % (v, w or "", v0, w0 or ""), lambda R, a=(w, v, None, ((w0, v0),)): c20(R, *a)))
        r.append(Scn("getLib(%s) after several requests" % (w or ""), lambda R, w=w: c20(R, w, "getLib", None, tuple((x, v) for x in W for v in ("ctor", "getLib")))))
    for w in W:
        for sod in (True, False):
            real = {"SaltLibNative": sod, "SaltLibPyNaCl": True, "SaltLibTweetNaClExt": True}
            r.append(Scn("getLib(%s), libsodium %s" % (w or "", "installed" if sod else "missing"), lambda R, a=(w, "getLib", real): c20(R, *a),
                         env={"cells": True} if sod else {"sodium": "none"}))
    return r


# ------------------------------------------------------------------ C21: facade
def salt(R, rng=None):
    S = R.cls(SL, "SaltLib")
    if rng is None:
        return R.I.call(S, [], {})
    return R.I.call(S, [], {"rand_type": R.get(R.cls(SL, "RngType"), rng)})


def rnd(R, v, src, n):
    a = R.T.atom_of(R.bts(v)) if R.bts(v) is not None else None
    return a is not None and a[0] == "urandom" and a[3] == src and R.ctx.known_eq0(lsub(a[1], n)) is True


def c21_random(R, rng, ideal):
    if ideal:
        setup(R)
    s = salt(R, rng)
    src = "lib" if rng == "RNG_IMPL" else "os"
    what = "back end's" if src == "lib" else "operating system's"
    n = R.sym("n", 1, 1 << 20)
    o = R.call(R.get(s, "random_bytes"), pyint(n))
    R.check(o[0] == "ret" and rnd(R, o[1], src, n), "random-bytes", lambda: "random_bytes(n) gives %s, not n bytes of the %s random source" % (R.sh(o[1]), what))
    seen = []
    for i in range(2):
        o = R.call(R.get(s, "create_enc_keys"))
        if R.check(o[0] == "ret", "raises", lambda: "create_enc_keys() raises %s" % R.outcome(o)):
            sec, pub = R.get(o[1], "sec"), R.get(o[1], "pub")
            R.check(rnd(R, sec, src, 32), "enc-seed", lambda: "the secret encryption key is %s, not 32 bytes of the %s random source" % (R.sh(sec), what))
            R.check(R.is_(pub, R.T.xpub(R.bts(sec))), "enc-pub", lambda: "the public encryption key is %s, not the one of the secret key" % R.sh(pub))
            seen.append(R.bts(sec))
        o = R.call(R.get(s, "create_sig_keys"))
        if R.check(o[0] == "ret", "raises", lambda: "create_sig_keys() raises %s" % R.outcome(o)):
            sec, pub = R.bts(R.get(o[1], "sec")), R.get(o[1], "pub")
            ok = sec is not None and R.ctx.known_eq0(lsub(R.ctx.blen(sec), 64)) is True
            if R.check(ok, "sig-size", lambda: "the secret signature key is %s" % R.sh(sec)):
                seed = R.sl(sec, 0, 32)
                R.check(rnd(R, seed, src, 32), "sig-seed", lambda: "the signature seed is %s, not 32 bytes of the %s random source" % (R.sh(seed), what))
                R.check(R.is_(R.sl(sec, 32, 64), R.T.edpub(seed)) and R.is_(pub, R.T.edpub(seed)), "sig-pub", lambda: "the public signature key %s does not belong to the secret %s" % (R.sh(pub), R.sh(sec)))
                seen.append(R.bts(seed))
    for i, x in enumerate(seen):
        for y in seen[i + 1:]:
            R.check(not R.is_(x, y), "seed-reused", "two generated key pairs share one seed")


OPS21 = {"sign": ("sign", (("msg", None), ("sec", 64))), "sign_open": ("sign_open", (("smsg", None), ("pub", 32))), "encrypt": ("encrypt", (("key", 32), ("nonce", 24), ("msg", None))),
         "decrypt": ("decrypt", (("key", 32), ("nonce", 24), ("cipher", None))), "shared": ("compute_shared_key", (("my_sk", None), ("peer_pk", None))), "from_sec": ("create_sig_keys_from_sec", (("sec", None),))}


def c21_ops(R, op, ideal, fresh=None):
    if ideal:
        setup(R)
    s = salt(R)
    if fresh is not None:
        fn, args = OPS21[op]
        old = [R.inp(("old_" if i in fresh else "") + n, w) for i, (n, w) in enumerate(args)]
        R.call(R.get(s, fn), *old)
        if op == "from_sec":
            R.call(R.get(s, "create_enc_keys_from_sec"), *old)
        if op == "sign":
            R.call(R.get(s, "sha512"), old[0])
    T, ctx = R.T, R.ctx

    def ret(out, want, what):
        if R.check(out[0] == "ret", "raises", lambda: "%s raises %s" % (what, R.outcome(out))):
            R.check(R.is_(out[1], want), what, lambda: "%s gives %s, expected %s" % (what, R.sh(out[1]), R.sh(want)))
    if op == "sign":
        m, sk = R.inp("msg"), R.inp("sec", 64)
        ret(R.call(R.get(s, "sign"), m, sk), R.cat(T.atom("sig", m, sk), m), "sign")
        ret(R.call(R.get(s, "sha512"), m), T.atom("sha512", m), "sha512")
    elif op == "sign_open":
        sm, pk = R.inp("smsg"), R.inp("pub", 32)
        out = R.call(R.get(s, "sign_open"), sm, pk)
        ok = ctx.le(Lin(64), ctx.blen(sm)) and any(e.data[0] and R.is_(e.data[1], R.sl(sm, 0, 64)) and R.is_(e.data[2], R.sl(sm, 64, ctx.blen(sm))) and R.is_(e.data[3], pk) for e in R.evs("verify"))
        if out[0] == "ret":
            if R.check(ok, "forgery-accepted", lambda: "sign_open returns %s without a verification" % R.sh(out[1])):
                R.check(R.is_(out[1], R.sl(sm, 64, ctx.blen(sm))), "sign_open", lambda: "sign_open returns %s" % R.sh(out[1]))
        else:
            R.check(not ok and R.exc_is(out[1], "BadSignatureException", "saltchannel.saltlib.exceptions"), "sign_open-refuses", lambda: "sign_open raises %s" % R.outcome(out))
    elif op == "encrypt":
        k, n, m = R.inp("key", 32), R.inp("nonce", 24), R.inp("msg")
        ret(R.call(R.get(s, "encrypt"), k, n, m), T.atom("box", m, n, k), "encrypt")
    elif op == "decrypt":
        k, n, c = R.inp("key", 32), R.inp("nonce", 24), R.inp("cipher")
        out = R.call(R.get(s, "decrypt"), k, n, c)
        ok = any(e.data[0] and R.is_(e.data[1], c) and R.is_(e.data[2], n) and R.is_(e.data[3], k) for e in R.evs("open"))
        if out[0] == "ret":
            if R.check(ok, "forgery-accepted", lambda: "decrypt returns %s without authentication" % R.sh(out[1])):
                R.check(R.is_(out[1], T.open(c, n, k)), "decrypt", lambda: "decrypt returns %s" % R.sh(out[1]))
        else:
            R.check(not ok and R.exc_is(out[1], "BadEncryptedDataException", "saltchannel.saltlib.exceptions"), "decrypt-refuses", lambda: "decrypt raises %s" % R.outcome(out))
    elif op == "shared":
        sk, pk = R.inp("my_sk"), R.inp("peer_pk")
        out = R.call(R.get(s, "compute_shared_key"), sk, pk)
        good = ctx.eq0(lsub(ctx.blen(sk), 32)) and ctx.eq0(lsub(ctx.blen(pk), 32))
        if not good:
            R.check(out[0] == "exc", "key-length", lambda: "compute_shared_key accepts keys of wrong length")
        elif out[0] == "ret":
            R.check(R.is_(out[1], R.dhk(pk, sk)), "shared-key", lambda: "compute_shared_key gives %s" % R.sh(out[1]))
        else:
            R.check(bool(R.evs("loworder", "rcfail")), "shared-key-refused", lambda: "compute_shared_key raises %s for usable keys" % R.outcome(out))
    elif op == "from_sec":
        sec = R.inp("sec")
        o = R.call(R.get(s, "create_enc_keys_from_sec"), sec)
        n32 = ctx.eq0(lsub(ctx.blen(sec), 32))
        if n32:
            if R.check(o[0] == "ret", "raises", lambda: "create_enc_keys_from_sec raises %s" % R.outcome(o)):
                R.check(R.is_(R.get(o[1], "sec"), sec) and R.is_(R.get(o[1], "pub"), T.xpub(sec)), "enc-from-sec", lambda: "key pair is %s / %s" % (R.sh(R.get(o[1], "sec")), R.sh(R.get(o[1], "pub"))))
        else:
            R.check(o[0] == "exc", "key-length", "create_enc_keys_from_sec accepts a key of wrong length")
        o = R.call(R.get(s, "create_sig_keys_from_sec"), sec)
        if n32 or ctx.eq0(lsub(ctx.blen(sec), 64)):
            seed = R.sl(sec, 0, 32)
            pk, sk = T.edkeys(seed)
            if R.check(o[0] == "ret", "raises", lambda: "create_sig_keys_from_sec raises %s" % R.outcome(o)):
                R.check(R.is_(R.get(o[1], "sec"), sk) and R.is_(R.get(o[1], "pub"), pk), "sig-from-sec", lambda: "key pair is %s / %s" % (R.sh(R.get(o[1], "sec")), R.sh(R.get(o[1], "pub"))))
        elif not ctx.le(Lin(32), ctx.blen(sec)):
            R.check(o[0] == "exc", "key-length", "create_sig_keys_from_sec accepts a seed of less than 32 bytes")
    memory_ok(R)


def c21_scenarios(tier):
    r = []
    envs = [("ideal", {}, True), ("native", {"cells": True}, False), ("pynacl", {"sodium": "none"}, False)]
    for nm, env, ideal in envs:
        for rng in (None, "RNG_URANDOM", "RNG_IMPL"):
            r.append(Scn("generated keys, %s back end, %s" % (nm, rng or "default random source"), lambda R, a=(rng, ideal): c21_random(R, *a), env=env))
        for op in ("sign", "sign_open", "encrypt", "decrypt", "shared", "from_sec"):
            r.append(Scn("%s, %s back end" % (op, nm), lambda R, a=(op, ideal): c21_ops(R, *a), env=env))
            if ideal:
                na = len(OPS21[op][1])
                for f in [(i,) for i in range(na)] + [()]:
                    r.append(Scn("%s after a call with a different %s" % (op, " and ".join(OPS21[op][1][i][0] for i in f) or "(nothing)"), lambda R, a=(op, ideal, f): c21_ops(R, *a), env=env))
    return r


# ------------------------------------------------------------------ C22: synchronous API
class Rec:
    pass


def c22_run(R, mk, ops, sync):
    rec = Rec()
    start = len(R.I.events)
    rec.o, rec.chan = mk(sync)
    rec.outs = []
    for path, meth, args, kw in ops:
        o = rec.o
        for p in path:
            o = R.get(o, p)
        if o is None:
            break
        r = R.run(o, meth, *args, sync=sync, **kw)
        rec.outs.append((meth, r))
        if r[0] != "ret":
            break
    rec.effects = [(e.kind, e.data[1:], e) for e in R.I.events[start:] if e.kind in ("read", "write", "streamread", "streamwrite", "writefail", "readfail", "transportfail", "eof", "time", "timecheck", "print")]
    rec.unaw = [e for e in R.I.events[start:] if e.kind == "unawaited"]
    return rec


def deq(R, a, b):
    """same effect data"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(deq(R, x, y) for x, y in zip(a, b))
    x, y = (R.bts(v) if isinstance(v, (bytes, SBytes, BArr, MView, bytearray)) else None for v in (a, b))
    if x is not None or y is not None:
        return x is not None and y is not None and R.is_(x, y)
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        return R.ctx.known_eq0(lsub(lin(a), lin(b))) is True
    if isinstance(a, Top) or isinstance(b, Top):
        raise Unsupported("unknown value compared")
    if a is None or b is None:
        return a is b
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a is b or a.cls is b.cls
    return a == b


def c22(R, mk, ops, states=()):
    A = c22_run(R, mk, ops, False)
    S = c22_run(R, mk, ops, True)
    for r in (A, S):
        for e in r.unaw:
            R.check(False, "not-awaited", lambda: "coroutine %s is never awaited" % R.sh(e.data[0]), e)
    for i in range(max(len(A.outs), len(S.outs))):
        if not R.check(i < len(A.outs) and i < len(S.outs), "outcome", "the synchronous and asynchronous calls end differently"):
            return
        (m, a), (_, s) = A.outs[i], S.outs[i]
        same = a[0] == s[0] and (a[0] != "exc" or a[1].cls is s[1].cls) and (a[0] != "ret" or deq(R, a[1], s[1]))
        if not R.check(same, "outcome", lambda: "%s() ends with %s %s but %s_sync() with %s %s" % (m, a[0], R.sh(a[1]), m, s[0], R.sh(s[1]))):
            return
    ea, es = A.effects, S.effects
    for i in range(max(len(ea), len(es))):
        x = ea[i] if i < len(ea) else None
        y = es[i] if i < len(es) else None
        if not R.check(x is not None and y is not None and x[0] == y[0] and deq(R, x[1], y[1]), "effects",
                       lambda: "operation no. %d of the asynchronous call is %s, of the synchronous call %s" % (i + 1, x and (x[0], R.sh(x[1])), y and (y[0], R.sh(y[1]))), y[2] if y else None):
            return
    for p in states:
        va, vs = A.o, S.o
        for q in p:
            va, vs = (None if va is None else R.get(va, q)), (None if vs is None else R.get(vs, q))
        R.check(deq(R, va, vs), "state", lambda: "%s is %s after the asynchronous and %s after the synchronous calls" % (".".join(p), R.sh(va), R.sh(vs)))


def c22_session(R, role, pin, buf, writes, refuse=False):
    setup(R)

    def mk(sync):
        P = mk_client(R, sync=sync, pin=pin, buf=buf, refuse=refuse) if role == "client" else mk_server(R, sync=sync, buf=buf, refuse=refuse)
        return P.s, P.chan
    ops = [((), "handshake", (), {})]
    for i, n in enumerate(writes):
        ops.append((("app_channel",), "write", [R.inp("w%d_%d" % (i, j)) for j in range(n)], {"is_last": i == len(writes) - 1}))
    c22(R, mk, ops, (("is_done",), ("client_sig_key",)) if role == "server" else ())


def c22_chan(R, what, ops):
    setup(R)
    key = R.inp("key", 32)

    def mk(sync):
        ch = Chan(R, "wire", feed(R, "rx"), rfail=True, wfail=True)
        if what == "A1":
            return R.new("saltchannel.a1a2.a1_client_session", "A1ClientSession", ch.obj), ch
        if what == "Mitm":
            return R.new("saltchannel.dev.mitm_channel", "MitmChannel", ch.obj), ch
        if what == "MitmLog":
            return R.new("saltchannel.dev.mitm_channel", "MitmChannel", ch.obj, log=R.I.call(R.get(R.I.import_("logging"), "getLogger"), [], {})), ch
        ec = enc_channel(R, "client", ch, key=key)
        if what == "Enc":
            return ec, ch
        K, C = R.keeper("t"), R.checker("t", True)
        return R.new("saltchannel.v2.app_channel_v2", "AppChannelV2", ec, K.obj, C.obj), ch
    msgs = [R.inp("w%d" % i) for i in range(3)]
    six = [b"a", R.inp("x1", 5), b"", R.inp("x3", 9), b"ccc", b"d"]
    lst = {"r": ((), "read", (), {}), "1": ((), "write", msgs[:1], {}), "3": ((), "write", six[:3], {"is_last": False}), "6": ((), "write", six, {"is_last": True}), "2": ((), "write", msgs[1:], {"is_last": True}), "a": ((), "do_a1a2", (), {})}
    c22(R, mk, [lst[o] for o in ops])


def c22_transport(R, kind, ops):
    def mk(sync):
        ch, p = transport(R, kind, fail=True, eof=True, chunks=1)
        return ch, p
    msgs = [R.inp("w%d" % i) for i in range(3)]
    six = [b"a", R.inp("x1", 5), b"", R.inp("x3", 9), b"ccc", b"d"]
    lst = {"r": ((), "read", (), {}), "1": ((), "write", msgs[:1], {}), "3": ((), "write", six[:3], {"is_last": False}), "6": ((), "write", six, {"is_last": True}), "2": ((), "write", msgs[1:], {"is_last": True})}
    c22(R, mk, [lst[o] for o in ops])


CLASSES = (("saltchannel.v2.salt_client_session", "SaltClientSession"), ("saltchannel.v2.salt_server_session", "SaltServerSession"),
           ("saltchannel.a1a2.a1_client_session", "A1ClientSession"), ("saltchannel.v2.encrypted_channel_v2", "EncryptedChannelV2"),
           ("saltchannel.v2.app_channel_v2", "AppChannelV2"), ("saltchannel.channel", "AsyncioChannel"), ("saltchannel.channel", "SocketChannel"),
           ("saltchannel.dev.mitm_channel", "MitmChannel"))
COROS = ("handshake", "read", "write", "do_a1a2", "do_m1", "do_m2", "do_m3", "do_m4", "do_a2")


def c22_api(R):
    setup(R)
    for mod, cn in CLASSES:
        c = R.cls(mod, cn)
        R.check(c.find("read") is not None or c.find("handshake") is not None or c.find("do_a1a2") is not None, "api", "%s has no coroutine" % cn)
        for n in COROS:
            if c.find(n) is not None and R.I.models.isco(c.find(n)):
                R.check(c.find(n + "_sync") is not None, "no-sync", lambda: "%s.%s has no synchronous counterpart" % (cn, n), loc="%s (%s)" % (cn, mod))


def c22_loop(R, what, given):
    """all synchronous calls run on the loop given to the session / work without a current loop"""
    setup(R)
    L = R.I.models.new_loop("given") if given else None
    ch = Chan(R, "x", feed(R, "rx"))
    if R.I.env.get("noloop"):
        ch.obj.d.pop("loop", None)
    start = len(R.I.events)

    def build():
        if what == "client":
            return mk_client(R, sync=True, loop=L, chan=ch).s
        if what == "clientbuf":
            return mk_client(R, sync=True, buf=True, loop=L, chan=ch).s
        if what == "server":
            return mk_server(R, sync=True, loop=L, chan=ch).s
        k = {} if L is None else {"loop": L}
        if what == "A1":
            return R.new("saltchannel.a1a2.a1_client_session", "A1ClientSession", ch.obj, **k)
        if what == "Mitm":
            return R.new("saltchannel.dev.mitm_channel", "MitmChannel", ch.obj, **k)
        ec = enc_channel(R, "client", ch, loop=L)
        if what == "Enc":
            return ec
        if what == "App":
            return R.new("saltchannel.v2.app_channel_v2", "AppChannelV2", ec, R.keeper("t").obj, R.checker("t").obj, **k)
        p = Pipe(R)
        p.loop = L or R.I.models.loop_obj()
        return stream_channel(R, p, **k)
    try:
        s = build()
    except PyExc as e:
        o = R.I.fix_exc(e).obj
        R.check(False, "creation", lambda: "creating the %s raises %s" % (what, R.sh(o)))
        return
    ops = {"client": ["handshake"], "clientbuf": ["handshake"], "server": ["handshake"], "A1": ["do_a1a2"]}.get(what, ["write", "read"])
    outs = []
    for m in ops:
        outs.append((m, R.run(s, m, *([R.inp("w")] if m == "write" else []), sync=True)))
    if what in ("client", "clientbuf", "server") and outs[0][1][0] == "ret" and R.get(s, "app_channel") is not None:
        a = R.get(s, "app_channel")
        outs.append(("write", R.run(a, "write", R.inp("w"), sync=True)))
        outs.append(("enc write", R.run(R.get(s, "enc_channel"), "write", R.inp("w"), sync=True)))
    for m, o in outs:
        R.check(o[0] != "exc" or R.exc_is(o[1], "ComException"), "sync-call", lambda: "%s: %s_sync() raises %s" % (what, m, R.outcome(o)))
    if given:
        for e in R.I.events[start:]:
            if e.kind == "rununtil":
                R.check(e.data[0] is L, "loop", "a synchronous call runs on another event loop than the one given to the %s" % what, e)
            if e.kind == "setloop":
                R.check(e.data[0] is L, "setloop", "the %s replaces the current event loop" % what, e)


def c22_scenarios(tier):
    r = [Scn("synchronous counterparts exist", c22_api)]
    for b in (False, True):
        r.append(Scn("client session (bufferM4=%s)" % yn(b), lambda R, b=b: c22_session(R, "client", True, b, (1, 2))))
        r.append(Scn("client session, no named key (bufferM4=%s)" % yn(b), lambda R, b=b: c22_session(R, "client", False, b, (1,), True)))
        r.append(Scn("server session (bufferM2=%s)" % yn(b), lambda R, b=b: c22_session(R, "server", False, b, (1, 2))))
        r.append(Scn("server session, refusing clock (bufferM2=%s)" % yn(b), lambda R, b=b: c22_session(R, "server", False, b, (1,), True)))
    for what, ops in (("A1", "a"), ("Mitm", "r12r"), ("MitmLog", "r12r"), ("Mitm", "6"), ("Enc", "36"), ("App", "36"), ("Enc", "12"), ("Enc", "r"), ("Enc", "1r"), ("App", "12"), ("App", "r"), ("App", "1r")):
        r.append(Scn("%s: calls %s" % (what, ops), lambda R, a=(what, ops): c22_chan(R, *a), K=4))
    for k in ("socket", "stream"):
        for ops in ("12", "6", "r", "1r"):
            r.append(Scn("%s channel: calls %s" % (k, ops), lambda R, a=(k, ops): c22_transport(R, *a), K=4))
    for what in ("client", "clientbuf", "server", "A1", "Mitm", "Enc", "App", "stream"):
        for g in (False, True):
            for nl in (False, True):
                if not g and not nl:
                    continue
                r.append(Scn("%s: loop given=%s, current loop=%s" % (what, yn(g), yn(not nl)), lambda R, a=(what, g): c22_loop(R, *a), env={"noloop": True} if nl else {}))
    return r


# ------------------------------------------------------------------ C23: address/protocol query
def c23(R, sync, buf, a2, null_time=False):
    setup(R)
    P = mk_server(R, sync=sync, buf=buf, null_time=null_time)
    want = b"\x09\x80\x01SCv2------" + b"-" * 10
    if a2 == "none":
        want = b"\x09\x81\0"
        R.set(P.s, "a2", R.new(AA, "A2Packet", case=R.get(R.get(R.cls(AA, "A2Packet"), "Case"), "A2_NO_SUCH_SERVER")))
    elif a2:
        cb = R.get(R.mod("saltchannel.util"), "cbytes")
        p = R.new(AA, "A2Packet")
        setf(R, data(R, p), "Count", a2)
        R.I.call(R.get(p, "create_opt_fields"), [], {"prot_count": a2})
        w = [b"\x09\x80", bytes([a2])]
        for i in range(a2):
            e = R.I.getitem(R.get(p, "Prot"), i)
            for j in (1, 2):
                s = R.inp("P%d_%d" % (i, j), 10)
                R.set(e, "P%d" % j, R.I.call(cb, [s], {}))
                w.append(s)
        want = R.cat(*w)
        R.set(P.s, "a2", p)
    out = handshake(R, P, sync)
    if not P.chan.reads:
        R.check(False, "no-read", lambda: "the server reads nothing (%s)" % R.outcome(out))
        return
    m = P.chan.reads[0][0]
    v = valid_a1(R, m)
    w = P.chan.flat()
    if v is None:
        for x, e in w:
            R.check(kind(R, x)[0] != "A2", "a2-without-a1", "an A2 is sent although no valid A1 was received", e)
        R.check(hasattr(P, "reused") or R.get(P.s, "is_done") is not True or out[0] != "ret" or R.get(P.s, "app_channel") is None, "done-without-a1", "is_done is set although a key exchange took place")
        return
    if not R.check(out[0] == "ret", "a1-refused", lambda: "a valid A1 leads to %s" % R.outcome(out)):
        return
    if v["type"] == 1 and not R.same(v["addr"], P.sigpub):
        want = b"\x09\x81\0"
    if R.check(len(w) == 1, "a2-count", lambda: "an A1 is answered by %d messages" % len(w)):
        R.check(R.is_(w[0][0], want), "a2-content", lambda: "the A1 is answered by %s, expected %s" % (R.sh(w[0][0]), R.sh(want)), w[0][1])
        R.check(P.chan.writes[0][1] is True, "a2-last", "the A2 is not written as last", w[0][1])
    R.check(len(P.chan.reads) == 1, "a1-more-reads", "the server reads on after an A1")
    for e in R.evs("dh", "box", "sign"):
        R.check(False, "a1-key-exchange", "a %s operation takes place for an A1" % e.kind, e)
    R.check(R.get(P.s, "is_done") is True, "not-done", lambda: "is_done is %s after an A1" % R.sh(R.get(P.s, "is_done")))
    R.check(newchan(R, P) is None and (R.get(P.s, "enc_channel") is None or R.get(P.s, "enc_channel") is getattr(P, "oldenc", None)), "a1-channel", "a channel exists after an A1")


def c23_client(R, sync, n, key):
    """the querying side sends exactly its A1 and reports the answer"""
    ch = Chan(R, "wire", feed(R, "rx", limit=1))
    s = R.new("saltchannel.a1a2.a1_client_session", "A1ClientSession", ch.obj)
    want = b"\x08\0\0\0\0"
    if key:
        k = R.inp("address", 32)
        p = R.get(s, "a1")
        setf(R, data(R, p), "AddressType", 1)
        setf(R, data(R, p), "AddressSize", 32)
        R.I.call(R.get(p, "create_opt_fields"), [], {})
        R.set(p, "Address", k)
        want = R.cat(b"\x08\0\x01\x20\0", k)
    out = R.run(s, "do_a1a2", sync=sync)
    w = ch.flat()
    if R.check(len(w) == 1 and len(ch.reads) <= 1, "a1-count", lambda: "do_a1a2() writes %d messages" % len(w)):
        R.check(R.is_(w[0][0], want), "a1-content", lambda: "the A1 sent is %s" % R.sh(w[0][0]), w[0][1])
    if out[0] == "ret" and R.check(bool(ch.reads), "a2-read", "do_a1a2() returns without reading"):
        m = ch.reads[0][0]
        if R.ctx.le(R.ctx.blen(m), Lin(3 + 20 * n)):
            b = pbytes(R, R.get(s, "a2"))
            f = R.sl(m, 1, 2)
            for bit in range(1, 7):
                if not R.ctx.eq0(lin(R.ctx.getbits(f, bit, 1))):
                    return
            R.check(R.is_(b, m), "a2-reported", lambda: "the A2 reported is %s, received was %s" % (R.sh(b), R.sh(m)))


def c23_scenarios(tier):
    r = []
    for s in (False, True):
        for b in (False, True):
            for a2 in (0, 1, "none") + ((2, 3) if tier == "thorough" else ()):
                r.append(Scn("server, arbitrary first message (sync=%s bufferM2=%s configured answer=%s)" % (yn(s), yn(b), a2), lambda R, a=(s, b, a2): c23(R, *a)))
        for k in (False, True):
            r.append(Scn("query (sync=%s address=%s)" % (yn(s), yn(k)), lambda R, a=(s, 1, k): c23_client(R, *a), K=4))
    r.append(Scn("server, arbitrary first message (default time)", lambda R: c23(R, False, False, 0, True)))
    return r + hist(r, tier, ("(sync=no bufferM2=no configured answer=0)", "(sync=no bufferM2=no configured answer=1)"), ("same", "retry", "reuse", "refused", "query", "loop"))


# ------------------------------------------------------------------ C24: suspension points
def has_atom(R, b, a):
    b = R.ctx.renorm(b)
    if isinstance(b, SBytes):
        return any(s[0] == "s" and s[1] == a for s in b.segs)
    return False


def c24_judge(R, ecs=()):
    ev = R.I.events
    T = R.T
    for e in ev:
        if e.kind != "box":
            continue
        a = T.atom_of(T.atom("box", *e.data))
        w = next((x for x in ev[e.n:] if x.kind == "streamwrite" and has_atom(R, x.data[0], a) or
                  x.kind == "write" and any(not isinstance(m, tuple) and has_atom(R, m, a) for m in x.data[1])), None)
        if w is None:
            continue
        held = 0
        bad = None
        for x in ev[:w.n]:
            if x.kind == "lock":
                held += 1
            elif x.kind == "unlock":
                held -= 1
            elif x.n > e.n and x.kind in ("suspend", "task", "rununtil") and held <= 0 and bad is None:
                bad = x
        R.check(bad is None, "suspension-before-write", lambda: "another task can run (%s at %s) after the nonce %s was used and before the ciphertext is written" % (
            R.sh(bad.data[0]) if bad.data else bad.kind, bad.loc, R.sh(e.data[1])), bad)
    last = None
    for x in ev:
        if x.kind in ("streamread", "read"):
            last = x
            held = 0
            bad = None
        elif last is not None and x.kind == "lock":
            held += 1
        elif last is not None and x.kind == "unlock":
            held -= 1
        elif last is not None and x.kind in ("suspend", "task") and held <= 0 and bad is None:
            bad = x
        elif last is not None and x.kind == "open":
            b0 = bad
            R.check(b0 is None, "suspension-before-open", lambda: "another task can run (%s at %s) between receiving a packet and using the expected nonce" % (
                R.sh(b0.data[0]) if b0.data else b0.kind, b0.loc), b0)
            last = None


def c24_together(R, start):
    """the packets of the write call that began at event `start`: no other task can run between the first and the last"""
    ev = R.I.events[start:]
    w = [i for i, x in enumerate(ev) if x.kind in ("streamwrite", "write")]
    held = 0
    for i, x in enumerate(ev[:w[-1]] if w else ()):
        if x.kind in ("lock", "unlock"):
            held += 1 if x.kind == "lock" else -1
        elif i > w[0] and held <= 0 and x.kind in ("suspend", "task", "rununtil"):
            R.check(False, "packets-apart", lambda: "another task can run (%s at %s) between two packets of one write call" % (R.sh(x.data[0]) if x.data else x.kind, x.loc), x)
            return
    R.obl += 1


def c24_nonce_watch(R, root):
    """violation when the flow can be suspended after a successful open while the expected nonce is still the old one"""
    st = {"snap": None}

    def ints():
        return {p: v for p, (_, v) in int_state(root()).items()} if root() is not None else {}

    def on(e):
        if e.kind == "open" and e.data[0]:
            st["snap"] = ints()
        elif st["snap"] is not None and e.kind in ("suspend", "task"):
            same = st["snap"] == ints()
            st["snap"] = None
            R.check(not same, "suspension-before-advance", lambda: "another task can run (%s) after a packet was decrypted and before the expected nonce has advanced" % R.sh(e.data[0]), e)
        elif e.kind in ("read", "streamread"):
            st["snap"] = None
    R.I.on_event = on


def c24_stack(R, role, ops, kind="app"):
    setup(R)
    ch, p = transport(R, "stream")

    class C:
        obj = ch
    ec = enc_channel(R, role, C)
    c24_nonce_watch(R, lambda: ec)
    if kind == "app":
        a = R.new("saltchannel.v2.app_channel_v2", "AppChannelV2", ec, R.keeper("t").obj, R.checker("t").obj)
    elif kind == "mitm":
        m = R.new("saltchannel.dev.mitm_channel", "MitmChannel", ch)

        class C2:
            obj = m
        a = ec = enc_channel(R, role, C2)
    else:
        a = ec
    i = 0
    for o in ops:
        start = len(R.I.events)
        if o == "r":
            out = R.run(a, "read")
        else:
            big = Apart(R, 0) if o[0] == "a" else None
            n = int(o.strip("a"))
            out = R.run(a, "write", *[big[j] if big else R.inp("m%d_%d" % (i, j)) if n < 20 else b"%d" % j for j in range(n)])
            c24_together(R, start)
        i += 1
        if out[0] != "ret":
            break
    c24_judge(R)
    R.obl += 1


def c24_session(R, role, buf, writes):
    setup(R)
    ch = Chan(R, "wire", feed(R, "rx"), suspends=True)
    P = mk_client(R, buf=buf, chan=ch) if role == "client" else mk_server(R, buf=buf, chan=ch)
    c24_nonce_watch(R, lambda: P.s.d.get("enc_channel"))
    out = R.run(P.s, "handshake")
    if out[0] == "ret" and R.get(P.s, "app_channel") is not None:
        for i, n in enumerate(writes):
            start = len(R.I.events)
            R.run(R.get(P.s, "app_channel"), "write", *[R.inp("m%d_%d" % (i, j)) if n < 20 else b"%d" % j for j in range(n)])
            c24_together(R, start)
    c24_judge(R)
    R.obl += 1


def c24_tasks(R, role, n, kind):
    """several tasks write on one channel: at every suspension point another one may run"""
    setup(R)
    ch, p = transport(R, "stream")

    class C:
        obj = ch
    a = ec = enc_channel(R, role, C)
    if kind == "app":
        a = R.new("saltchannel.v2.app_channel_v2", "AppChannelV2", ec, R.keeper("t").obj, R.checker("t").obj)
    st = {"left": n}
    groups = []

    def on(e):
        if e.kind == "suspend" and st["left"] > 0:
            if R.ctx.opaque(("switch", e.n), "another task runs at %s" % e.loc):
                st["left"] -= 1
                k = st["left"]
                ms = [sized(R, "other%d" % k, 0, 1 << 30)] + ([sized(R, "second%d" % k, 0, 1 << 30)] if k % 2 else [])
                groups.append(ms)
                R.run(a, "write", *ms)
    R.I.on_event = on
    for i in range(2):
        ms = [sized(R, "%s%d" % (x, i), 0, 1 << 30) for x in ("m", "mm", "mmm", "mmmm")[:4 if i == 0 else 2]]
        groups.append(ms)
        R.run(a, "write", *ms)
    R.I.on_event = None
    boxes = [(e.data[1], R.T.atom_of(R.T.atom("box", *e.data))) for e in R.evs("box")]
    seq, plain = [], []
    for x in R.evs("streamwrite"):
        for s in (x.data[0].segs if isinstance(x.data[0], SBytes) else ()):
            if s[0] == "s" and s[1][0] == "box":
                seq.append((s[1][2], x))
                plain.append(s[1][1])
    # the packets of one call are contiguous
    where = {}
    for i, p in enumerate(plain):
        for g, ms in enumerate(groups):
            if any(R.T.atom_of(m) is not None and has_atom(R, p, R.T.atom_of(m)) for m in ms):
                where.setdefault(g, []).append(i)
    for g, ix in where.items():
        R.check(ix == list(range(ix[0], ix[-1] + 1)), "call-interleaved", lambda: "the packets of one write call are at positions %s of the stream: packets of another task are in between" % ix)
    for i, (nn, e) in enumerate(seq):
        want = (1 if role == "client" else 2) + 2 * i
        R.check(R.is_(nn, nonce(R, want)), "wire-order", lambda: "with concurrent writers packet no. %d on the wire carries nonce %s, expected counter %d" % (i + 1, R.sh(nn), want), e)


def c24_scenarios(tier):
    r = []
    for ro in ("client", "server"):
        for k in ("enc", "app", "mitm"):
            for ops in ("1", "2", "12", "3") + (("21", "112") if tier == "thorough" else ()):
                r.append(Scn("%s, %s channel over a stream: writes %s" % (ro, k, ops), lambda R, a=(ro, ops, k): c24_stack(R, *a)))
            r.append(Scn("%s, %s channel over a stream: read" % (ro, k), lambda R, a=(ro, "r", k): c24_stack(R, *a), K=4))
        for b in (False, True):
            r.append(Scn("%s session (buffering=%s)" % (ro, yn(b)), lambda R, a=(ro, b, (1, 2)): c24_session(R, *a)))
            r.append(Scn("%s session, many messages (buffering=%s)" % (ro, yn(b)), lambda R, a=(ro, b, (2, 300)): c24_session(R, *a), env=LONG))
        for k in ("enc", "app", "mitm"):
            for n in counts(tier):
                r.append(Scn("%s, %s channel over a stream: write of %d messages" % (ro, k, n), lambda R, a=(ro, ("%d" % n,), k): c24_stack(R, *a), env=LONG))
        for n in many():
            r.append(Scn("%s, app channel over a stream: write of %d messages that do not fit one packet" % (ro, n), lambda R, a=(ro, ("a%d" % n,), "app"): c24_stack(R, *a), env=LONG))
        for k in ("enc", "app"):
            r.append(Scn("%s, %s channel: concurrent writers" % (ro, k), lambda R, a=(ro, 3 if tier == "thorough" else 2, k): c24_tasks(R, *a)))
    return r


# ------------------------------------------------------------------ C25: logging channel
def c25(R, sync, log, buffering, ops, fail):
    ch = Chan(R, "inner", feed(R, "rx"), rfail=bool(fail), wfail=bool(fail))
    if fail and fail is not True:
        ch.failkind = R.get(R.I.import_("asyncio"), fail) if fail == "CancelledError" else fail
    k = {"log": R.I.call(R.get(R.I.import_("logging"), "getLogger"), [], {})} if log else {}
    M = R.new("saltchannel.dev.mitm_channel", "MitmChannel", ch.obj, **k)
    if buffering:
        R.set(M, "log_buffering", True)
    ctx = R.ctx
    rd, wr = Lin(0), Lin(0)
    for i, o in enumerate(ops):
        if o == "r":
            nf, nr = len(R.evs("readfail")), len(ch.reads)
            out = R.run(M, "read", sync=sync)
            if len(R.evs("readfail")) > nf:
                R.check(out[0] == "exc" and out[1].cls is ch.raised.cls, "error-lost", lambda: "the wrapped channel fails, but read() ends with %s" % R.outcome(out))
                continue
            if R.check(out[0] == "ret" and len(ch.reads) > nr, "read-fails", lambda: "read() ends with %s although the wrapped channel delivers" % R.outcome(out)):
                R.check(len(ch.reads) == nr + 1, "read-count", lambda: "one read() takes %d messages from the wrapped channel" % (len(ch.reads) - nr))
                v = ch.reads[nr][0]
                R.check(R.is_(out[1], v), "read-value", lambda: "read() returns %s, the wrapped channel returned %s" % (R.sh(out[1]), R.sh(v)))
                rd = ladd(rd, ctx.blen(v))
        else:
            n = int(o.lower().replace("l", ""))
            last = "l" in o
            ms = [R.inp("m%d_%d" % (i, j)) for j in range(n)]
            nw, nf = len(ch.writes), len(R.evs("writefail"))
            out = R.run(M, "write", *ms, sync=sync, **({"is_last": True} if last else {}))
            got = ch.writes[nw:]
            flat = [m for w in got for m in w[0]]
            failed = len(R.evs("writefail")) > nf
            if failed:
                R.check(out[0] == "exc" and out[1].cls is ch.raised.cls, "error-lost", lambda: "the wrapped channel fails, but write() ends with %s" % R.outcome(out))
                must_num(R, R.get(M, "counter_write"), wr, "counter-write", "counter_write after a failed write")
                return
            R.check(out[0] == "ret", "write-fails", lambda: "write() ends with %s although the wrapped channel works" % R.outcome(out))
            R.check(len(flat) == n and all(not isinstance(x, tuple) and R.is_(x, y) for x, y in zip(flat, ms)), "write-messages",
                    lambda: "write(%d messages) passes %s to the wrapped channel" % (n, [R.sh(x) for x in flat]))
            if got:
                R.check(R.I.truth(got[-1][1]) is last and not any(R.I.truth(w[1]) for w in got[:-1]), "write-last", lambda: "is_last=%s is passed on as %s" % (last, [w[1] for w in got]), got[-1][2])
            for m in ms:
                wr = ladd(wr, ctx.blen(m))
        must_num(R, R.get(M, "counter_read"), rd, "counter-read", "counter_read")
        must_num(R, R.get(M, "counter_write"), wr, "counter-write", "counter_write")
    R.run_close = R.call(R.get(M, "close"))
    R.check(bool(R.evs("close")), "close", "close() is not passed to the wrapped channel")


def c25_scenarios(tier):
    r = []
    seqs = (["1", "r", "3l", "r", "2"], ["2l"], ["r", "r", "1l"])
    if tier == "thorough":
        seqs += (["4", "1l", "r", "r", "r"], ["1", "1", "1", "r", "1l"])
    for s in (False, True):
        for log, buf in ((False, False), (True, False), (True, True), (False, True)):
            for q in seqs:
                for f in (False, True):
                    r.append(Scn("calls %s (sync=%s log=%s buffering=%s failing=%s)" % (" ".join(q), yn(s), yn(log), yn(buf), yn(f)), lambda R, a=(s, log, buf, q, f): c25(R, *a)))
            for f in ("EOFError", "OSError", "ValueError", "TypeError", "CancelledError"):
                r.append(Scn("wrapped channel fails with %s (sync=%s log=%s buffering=%s)" % (f, yn(s), yn(log), yn(buf)), lambda R, a=(s, log, buf, ["r", "2"], f): c25(R, *a)))
    return r


RULES2 = {"C13": c13_scenarios, "C14": c14_scenarios, "C15": c15_scenarios, "C16": c16_scenarios, "C17": c17_scenarios, "C18": c18_scenarios,
          "C19": c19_scenarios, "C20": c20_scenarios, "C21": c21_scenarios, "C22": c22_scenarios, "C23": c23_scenarios, "C24": c24_scenarios, "C25": c25_scenarios}
