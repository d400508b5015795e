"""Abstract domains: affine integers with intervals, byte-string provenance terms.

Everything here is value-numbering style normal-form arithmetic; undecided
comparisons partition the trace (Ctx.choose) and refine the interval store.
"""

INF = None


class Infeasible(Exception):
    """The current trace partition is contradictory."""


class Cut(Exception):
    """The trace was cut at the unrolling bound (counted in the evidence)."""


# --------------------------------------------------------------------------- ints
_atom_ids = {}


def _aid(a):
    i = _atom_ids.get(a)
    if i is None:
        i = _atom_ids[a] = len(_atom_ids)
    return i


class Lin:
    """c + sum(coef*atom); immutable."""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is not Lin or self._h != o._h:
            return False
        t = o.t
        if self.t is t:
            return self.c == o.c
        if self.c == o.c and self.t == t:
            self.t = t                  # share, so that the next comparison is cheap
            return True
        return False

    def __repr__(self):
        return show_lin(self)


def mk(c, d):
    return Lin(c, tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda p: _aid(p[0]))))


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, bool):
        return Lin(int(x))
    return Lin(int(x))


def latom(a):
    return Lin(0, ((a, 1),))


def ladd(a, b, k=1):
    a, b = lin(a), lin(b)
    if not b.t:
        return Lin(a.c + k * b.c, a.t)
    if not a.t and k == 1:
        return Lin(a.c + b.c, b.t)
    d = dict(a.t)
    for at, co in b.t:
        d[at] = d.get(at, 0) + k * co
    return mk(a.c + k * b.c, d)


def lsub(a, b):
    return ladd(a, b, -1)


def lmul(a, k):
    a = lin(a)
    if k == 0:
        return Lin(0)
    return Lin(a.c * k, tuple((at, co * k) for at, co in a.t))


def pyint(l):
    """int for constants, Lin otherwise"""
    if isinstance(l, Lin) and not l.t:
        return l.c
    return l


# --------------------------------------------------------------------------- bytes
class SBytes:
    """Non-constant byte string: tuple of segments.
    ('c', bytes) constant; ('s', atom, lo, hi) slice of an atom; ('z', Lin) zeros."""
    __slots__ = ("segs", "_h")

    def __init__(self, segs):
        self.segs = tuple(segs)
        self._h = hash(self.segs)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is not SBytes or self._h != o._h:
            return False
        t = o.segs
        if self.segs is t:
            return True
        if self.segs == t:
            self.segs = t
            return True
        return False

    def __repr__(self):
        return show(self)


def segs_of(v):
    if isinstance(v, (bytes, bytearray)):
        return (("c", bytes(v)),) if len(v) else ()
    return v.segs


def show_lin(l):
    if not isinstance(l, Lin):
        return str(l)
    s = [("%s" if k == 1 else str(k) + "*%s") % show_atom(a) for a, k in l.t]
    if l.c or not s:
        s.append(str(l.c))
    return "+".join(s)


def show_atom(a):
    k = a[0]
    if k == "in":
        return a[1]
    if k == "len":
        return "len(%s)" % show_atom(a[1])
    if k == "sym":
        return a[1]
    if k == "dec":
        return "int(%s)" % show(a[1])
    if k == "bits":
        return "bits(%s,%d,%d)" % (show(a[1]), a[2], a[3])
    if k == "le":
        return "LE%d(%s)" % (a[2], show_lin(a[1]))
    return "%s(%s)" % (k, ",".join(show(x) if isinstance(x, (bytes, SBytes)) else show_lin(x) if isinstance(x, Lin) else str(x) for x in a[1:]))


def show(v):
    if isinstance(v, (bytes, bytearray)):
        return "x'" + bytes(v).hex() + "'" if len(v) <= 64 else "x'%s..'[%d]" % (bytes(v)[:16].hex(), len(v))
    if isinstance(v, SBytes):
        o = []
        for s in v.segs:
            if s[0] == "c":
                o.append(show(s[1]))
            elif s[0] == "z":
                o.append("zeros(%s)" % show_lin(s[1]))
            else:
                _, a, lo, hi = s
                full = (lo == Lin(0) and (hi == fixed_len(a) if fixed_len(a) is not None else hi == latom(("len", a)) or a[0] in ("box", "open")))
                o.append(show_atom(a) if full else "%s[%s:%s]" % (show_atom(a), show_lin(lo), show_lin(hi)))
        return " || ".join(o) or "x''"
    if isinstance(v, Lin):
        return show_lin(v)
    return str(v)


FIXED = {"sha512": 64, "sig": 64, "dh": 32, "xpub": 32, "edpub": 32, "bb": 1, "onbyte": 1}


CRYPTO = ("sha512", "sig", "dh", "xpub", "edpub", "box", "open", "dhraw", "urandom", "libfn")


def fixed_len(a):
    k = a[0]
    if k == "in":
        return Lin(a[2]) if a[2] is not None else None
    if k in ("le", "be"):
        return Lin(a[2])
    if k == "cst":
        return Lin(len(a[1]))
    if k == "cell":
        return Lin(a[2])
    n = FIXED.get(k)
    return Lin(n) if n is not None else None


# --------------------------------------------------------------------------- context
class Ctx:
    """State of one trace partition: decisions taken, intervals, equalities, effects."""
    K = 3               # semantic unrolling bound for loops with unknown trip count

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []          # (choice, n)
        self.labels = []
        self.bounds = {}
        self.sub = {}
        self.ineqs = []
        self.facts = {}
        self.known = []          # (atom, lo, hi, bytes)  known constant content
        self.kbytes = {}         # atom -> {offset: byte}
        self.lens = {}
        self.counter = {}
        self.nacache = {}
        self.exec_forks = 0
        self.ver = 0
        self.cncache = {}

    # ------------------------------------------------------------ decisions
    def choose(self, n, label=""):
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
        self.pos += 1
        self.taken.append((c, n))
        self.labels.append(label)
        self.exec_forks += 1
        if len(self.taken) > 400:
            raise Cut("too many decisions")
        return c

    def opaque(self, key, label=""):
        """an unknown predicate, decided consistently along the trace (True first)"""
        if key in self.facts:
            return self.facts[key]
        if any(isinstance(x, SBytes) for x in key):         # the same question may have been asked before more was known
            for k2, v in self.facts.items():
                if isinstance(k2, tuple) and len(k2) == len(key) and k2[0] == key[0] and all(
                        x == y or isinstance(x, (SBytes, bytes)) and isinstance(y, (SBytes, bytes)) and self.renorm(x) == self.renorm(y) for x, y in zip(key, k2)):
                    self.facts[key] = v
                    return v
        v = self.choose(2, label or str(key)) == 0
        self.facts[key] = v
        return v

    def fresh(self, kind):
        n = self.counter.get(kind, 0) + 1
        self.counter[kind] = n
        return n

    # ------------------------------------------------------------ ints
    def bound(self, a):
        b = self.bounds.get(a)
        if b is None:
            b = self.default_bound(a)
            if self.sub and a[0] in ("dec", "decb", "bits") and isinstance(a[1], SBytes):
                b = self.earlier_bound(a, b)
            self.bounds[a] = b
        return b

    def earlier_bound(self, a, b):
        """what was learned about the same field when less was known about the bytes it lies in"""
        g = a[1].segs
        if len(g) != 1 or g[0][0] != "s":
            return b
        for x in list(self.bounds):
            if x[0] != a[0] or x[2:] != a[2:] or x == a or not isinstance(x[1], SBytes) or len(x[1].segs) != 1:
                continue
            h = x[1].segs[0]
            if h[0] != "s" or h[1][0] != g[0][1][0] or not self._symbolic(x[1]) or self.renorm(x[1]) != a[1]:
                continue
            t = self.sub.get(x)
            if t is not None and a not in self.sub and not occurs(a, t):
                self.sub[a] = t
            lo, hi = self.bounds[x]
            b = (lo if b[0] is None else b[0] if lo is None else max(lo, b[0]), hi if b[1] is None else b[1] if hi is None else min(hi, b[1]))
        return b

    def default_bound(self, a):
        k = a[0]
        if k == "len":
            return (0, 1 << 56)         # an object of the address space
        if self.kbytes and k in ("dec", "decb", "bits") and isinstance(a[1], SBytes):
            c = self.renorm(a[1])
            if isinstance(c, bytes):
                v = self.const_field(a, c)
                return (v, v)
        if k in ("dec", "decb"):
            n = self.norm(self.blen(a[1]))
            if not n.t:
                bits = 8 * n.c
                if a[2]:
                    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if bits else (0, 0)
                return (0, (1 << bits) - 1)
            return (INF, INF) if a[2] else (0, INF)
        if k == "bits":
            return (0, (1 << a[3]) - 1)
        if k == "op":
            return self.op_bound(a)
        return (INF, INF)

    def op_bound(self, a):
        _, op, x, y = a
        xl, xh = self.range(x)
        yl, yh = self.range(y)
        if op == "&":
            if yl is not None and yl >= 0 and yh is not None:
                return (0, yh if xh is None or xl is None or xl < 0 else min(xh, yh))
            if xl is not None and xl >= 0:
                return (0, xh)
        if op in ("|", "^") and xl is not None and yl is not None and xl >= 0 and yl >= 0 and xh is not None and yh is not None:
            return (max(xl, yl) if op == "|" else 0, (1 << max(xh.bit_length(), yh.bit_length())) - 1)
        if op == "%" and yl is not None and yl > 0:
            return (0, yh - 1 if yh is not None else INF)
        if op == "//" and yl == yh and yl is not None and yl > 0:
            return (None if xl is None else xl // yl, None if xh is None else xh // yl)
        if op == ">>" and yl == yh and yl is not None:
            return (None if xl is None else xl >> yl, None if xh is None else xh >> yl)
        if op == "*" and None not in (xl, xh, yl, yh):
            c = [xl * yl, xl * yh, xh * yl, xh * yh]
            return (min(c), max(c))
        if op == "*" and xl is not None and yl is not None and xl >= 0 and yl >= 0:
            return (xl * yl, INF)
        if op == "wrap":       # x reduced modulo 2**y (unsigned store)
            return (0, (1 << yh) - 1)
        return (INF, INF)

    def norm(self, l):
        l = lin(l)
        if not l.t:
            return l
        for _ in range(50):
            ch = False
            c = l.c
            d = {}
            for a, k in l.t:
                s = self.sub.get(a)
                if s is None and a not in self.bounds:
                    self.bound(a)
                    s = self.sub.get(a)
                if s is not None:
                    ch = True
                    c += k * s.c
                    for a2, k2 in s.t:
                        d[a2] = d.get(a2, 0) + k * k2
                    continue
                lo, hi = self.bound(a)
                if lo is not None and lo == hi:
                    ch = True
                    c += k * lo
                    continue
                if self.sub and a[0] in ("dec", "decb", "bits") and isinstance(a[1], SBytes) and self._symbolic(a[1]):
                    v = self.canon(a)
                    if v is not None:
                        ch = True
                        c += k * v.c
                        for a2, k2 in v.t:
                            d[a2] = d.get(a2, 0) + k * k2
                        continue
                d[a] = d.get(a, 0) + k
            if not ch:
                m = self.join_fields(l) if len(l.t) > 1 else None
                if m is None:
                    return l
                l = m
                continue
            l = mk(c, d)
            if not l.t:
                return l
        return l

    def join_fields(self, l):
        """dec(u) + 256**len(u) * dec(v) of adjacent byte ranges is dec(uv)"""
        fs = [(a, k) for a, k in l.t if a[0] in ("dec", "decb") and not a[2] and isinstance(a[1], SBytes) and len(a[1].segs) == 1 and a[1].segs[0][0] == "s"]
        if len(fs) < 2:
            return None
        for a, k in fs:
            n = self.blen(a[1])
            if n.t:
                continue
            for b, j in fs:
                if j != k << (8 * n.c) or a == b:
                    continue
                (_, p, plo, phi), (_, q, qlo, qhi) = a[1].segs[0], b[1].segs[0]
                if p != q:
                    continue
                m = self.blen(b[1])
                if phi == qlo and a[0] == "dec" and b[0] == "dec":
                    v = self.dec(self.mkb([("s", p, plo, qhi)]))
                elif qhi == plo and (a[0] == "decb" or n == Lin(1)) and (b[0] == "decb" or m == Lin(1)):
                    v = self.dec_be(self.mkb([("s", p, qlo, phi)]))
                else:
                    continue
                d = dict(l.t)
                del d[a], d[b]
                return ladd(mk(l.c, d), lmul(lin(v), k))
        return None

    def _symbolic(self, b):
        for s in b.segs:
            if s[0] == "z" or s[0] == "s" and (s[2].t or s[3].t):
                return True
            if s[0] == "s" and s[1][0] in CRYPTO and any(isinstance(x, SBytes) and self._symbolic(x) for x in s[1][1:]):
                return True
        return False

    def canon(self, a):
        """the field a with its byte range rewritten under the current substitutions; None when nothing changes"""
        ver = (self.ver, len(self.taken), len(self.known), len(self.sub))
        m = self.cncache.get(a)
        if m is not None and m[0] == ver:
            return m[1]
        self.cncache[a] = (ver, None)
        b = self.renorm(a[1])
        if b == a[1]:
            return None
        if a[0] == "bits":
            if isinstance(b, bytes):
                v = Lin(self.const_field(a, b))
            else:
                v = latom(("bits", b) + a[2:])
        else:
            v = lin(self.dec(b, a[2]) if a[0] == "dec" else self.dec_be(b, a[2]))
        if occurs(a, v):
            return None
        lo, hi = self.bounds.get(a, (None, None))
        self.sub[a] = v
        if lo is not None:
            self.assume_le0(ladd(lmul(v, -1), lo))
        if hi is not None:
            self.assume_le0(ladd(v, -hi))
        return v

    def range(self, l):
        l = self.norm(l)
        lo = hi = l.c
        for a, k in l.t:
            al, ah = self.bound(a)
            if k < 0:
                al, ah = ah, al
            lo = None if lo is None or al is None else lo + k * al
            hi = None if hi is None or ah is None else hi + k * ah
        return lo, hi

    def known_le0(self, l):
        """True/False/None: is l <= 0 ?"""
        l = self.norm(l)
        lo, hi = self.range(l)
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
        neg = ladd(lmul(l, -1), 1)       # l > 0  <=>  1 - l <= 0
        fs = [self.norm(f) for f in self.ineqs]
        for f in fs:
            h = self.range(lsub(l, f))[1]
            if h is not None and h <= 0:
                return True
            h = self.range(lsub(neg, f))[1]
            if h is not None and h <= 0:
                return False
        if len(fs) <= 12:
            for i in range(len(fs)):
                for j in range(i):
                    s = ladd(fs[i], fs[j])
                    h = self.range(lsub(l, s))[1]
                    if h is not None and h <= 0:
                        return True
                    h = self.range(lsub(neg, s))[1]
                    if h is not None and h <= 0:
                        return False
        return None

    def known_eq0(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c == 0
        g = 0
        for _, k in l.t:
            g = gcd(g, abs(k))
        if g and l.c % g:
            return False
        a = self.known_le0(l)
        if a is False:
            return False
        b = self.known_le0(lmul(l, -1))
        if b is False:
            return False
        if a and b:
            if l.t and len(l.t) > 1:
                self._eliminate(l)
            return True
        v = self.facts.get(("eq0", l))
        if v is None:
            v = self.facts.get(("eq0", lmul(l, -1)))
        return v

    def assume_le0(self, l):
        l = self.norm(l)
        lo, hi = self.range(l)
        if lo is not None and lo > 0:
            raise Infeasible()
        if not l.t:
            return
        # tighten each atom's interval
        for a, k in l.t:
            rest = mk(l.c, {x: y for x, y in l.t if x != a})
            rl = self.range(rest)[0]
            if rl is None:
                continue
            al, ah = self.bound(a)
            if k > 0:           # k*a <= -rest_min
                m = (-rl) // k
                if ah is None or m < ah:
                    ah = m
            else:               # a >= rest_min/(-k)
                m = -((-rl) // (-k))
                if al is None or m > al:
                    al = m
            self.setb(a, al, ah)
        if len(l.t) > 1:
            self.ineqs.append(l)

    def setb(self, a, lo, hi):
        """record an interval and what it implies for other views of the same bytes"""
        if lo is not None and hi is not None and lo > hi:
            raise Infeasible()
        old = self.bounds.get(a)
        self.bounds[a] = (lo, hi)
        if old == (lo, hi):
            return
        self.ver += 1
        k = a[0]
        if k == "bits":
            if lo == hi:
                self._bit_known(a)
        elif k == "dec" and isinstance(a[1], SBytes):
            n = self.norm(self.blen(a[1]))
            if n.t:
                return
            if lo is not None and lo == hi:
                self._learn_dec(a, lo)
                return
            half = 1 << (8 * n.c - 1)
            if a[2] and lo is not None and lo >= 0:
                u = ("dec", a[1], False)
                if a not in self.sub:
                    ul, uh = self.bound(u)
                    self.sub[a] = latom(u)
                    self.setb(u, max(ul, lo), min(uh, hi))
            elif a[2] and hi is not None and hi < 0:
                u = ("dec", a[1], False)
                if a not in self.sub:
                    ul, uh = self.bound(u)
                    self.sub[a] = ladd(latom(u), -2 * half)
                    self.setb(u, max(ul, lo + 2 * half), min(uh, hi + 2 * half))
            elif not a[2]:
                s = ("dec", a[1], True)
                if hi is not None and hi < half and s not in self.sub:
                    if s in self.bounds:
                        sl, sh = self.bounds[s]
                        self.sub[s] = latom(a)
                        self.setb(a, max(lo, sl), min(hi, sh))
                    else:
                        self.sub[s] = latom(a)
                elif lo is not None and lo >= half and s not in self.sub:
                    if s in self.bounds:
                        sl, sh = self.bounds[s]
                        self.sub[s] = ladd(latom(a), -2 * half)
                        self.setb(a, max(lo, sl + 2 * half), min(hi, sh + 2 * half))
                    else:
                        self.sub[s] = ladd(latom(a), -2 * half)
                if n.c == 1:
                    lo, hi = self.bounds[a]
                    for i in range(8):
                        if lo >> i == hi >> i:
                            b = ("bits", a[1], i, 1)
                            v = (lo >> i) & 1
                            bl, bh = self.bounds.get(b, (0, 1))
                            if not bl <= v <= bh:
                                raise Infeasible()
                            self.bounds[b] = (v, v)

    def _bit_known(self, a):
        b = a[1]
        if not isinstance(b, SBytes):
            return
        vs = [self.bounds.get(("bits", b, i, 1), (0, 1)) for i in range(8)]
        d = ("dec", b, False)
        if all(x == y for x, y in vs):
            v = sum(x << i for i, (x, _) in enumerate(vs))
            dl, dh = self.bounds.get(d, (0, 255))
            if not dl <= v <= dh:
                raise Infeasible()
            self.bounds[d] = (v, v)
            self._learn_dec(d, v)
            return
        lo, hi = sum(x << i for i, (x, _) in enumerate(vs)), sum(y << i for i, (_, y) in enumerate(vs))
        dl, dh = self.bounds.get(d, (0, 255))
        if max(lo, dl) > min(hi, dh):
            raise Infeasible()
        self.setb(d, max(lo, dl), min(hi, dh))

    def assume_eq0(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c != 0:
                raise Infeasible()
            return
        if len(l.t) == 1:
            (a, k), = l.t
            if l.c % k:
                raise Infeasible()
            v = -l.c // k
            al, ah = self.bound(a)
            if (al is not None and v < al) or (ah is not None and v > ah):
                raise Infeasible()
            self.setb(a, v, v)
            for x in [x for x in self.sub if x[0] == "dec"]:
                y = self.norm(latom(x))
                if not y.t:
                    self._learn_dec(x, y.c)
            return
        self.assume_le0(l)
        self.assume_le0(lmul(l, -1))
        l = self.norm(l)
        if not l.t:
            if l.c:
                raise Infeasible()
            return
        if not self._eliminate(l):
            self.facts[("eq0", l)] = True

    def _eliminate(self, l):
        """l = 0 becomes a substitution for one of its atoms"""
        cand = [({"sym": 0, "len": 1, "op": 2, "dec": 4, "bits": 5}.get(a[0], 3), -_aid(a), a, k) for a, k in l.t
                if abs(k) == 1 and not any(occurs(a, x) for x, _ in l.t if x != a)]
        if cand:
            cand.sort(key=lambda x: x[:2])
            _, _, a, _k = cand[0]
            k = dict(l.t)[a]
            rest = mk(l.c, {x: y for x, y in l.t if x != a})
            r = lmul(rest, -k)
            al, ah = self.bound(a)
            self.sub[a] = r
            if al is not None:
                self.assume_le0(ladd(lmul(r, -1), al))
            if ah is not None:
                self.assume_le0(ladd(r, -ah))
            return True
        return False

    def _learn_dec(self, a, v):
        if a[0] == "dec" and v is not None:
            n = self.norm(self.blen(a[1]))
            if a[2] and v < 0 and not n.t:
                v += 1 << (8 * n.c)
            if not n.t and isinstance(a[1], SBytes) and len(a[1].segs) == 1 and a[1].segs[0][0] == "s":
                _, at, lo, hi = a[1].segs[0]
                if v >= 0 and v < (1 << (8 * n.c)):
                    self.learn(at, lo, hi, v.to_bytes(n.c, "little"))

    def learn(self, at, lo, hi, b):
        """bytes [lo,hi) of at are the constant b; contradictions with earlier facts make the partition infeasible"""
        self.known.append((at, lo, hi, b))
        if not lo.t and not hi.t:
            m = self.kbytes.setdefault(at, {})
            for i in range(len(b)):
                if m.setdefault(lo.c + i, b[i]) != b[i]:
                    raise Infeasible()
        for a, (l, h) in list(self.bounds.items()):
            if a[0] in ("dec", "decb", "bits") and isinstance(a[1], SBytes):
                c = self.renorm(a[1])
                if isinstance(c, bytes):
                    v = self.const_field(a, c)
                    if (l is not None and v < l) or (h is not None and v > h):
                        raise Infeasible()
                    self.bounds[a] = (v, v)
        for k, val in list(self.facts.items()):
            if k[0] == "beq":
                x, y = self.renorm(k[1]), self.renorm(k[2])
                if isinstance(x, bytes) and isinstance(y, bytes) and (x == y) != val:
                    raise Infeasible()
            elif k[0] == "eq0":
                n = self.norm(k[1])
                if not n.t and (n.c == 0) != val:
                    raise Infeasible()

    def const_field(self, a, c):
        if a[0] == "bits":
            return (c[0] >> a[2]) & ((1 << a[3]) - 1)
        return int.from_bytes(c, "little" if a[0] == "dec" else "big", signed=a[2])

    def assume_ne0(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c == 0:
                raise Infeasible()
            return
        if len(l.t) == 1:
            (a, k), = l.t
            if l.c % k == 0:
                v = -l.c // k
                al, ah = self.bound(a)
                if al == v:
                    al += 1
                if ah == v:
                    ah -= 1
                self.setb(a, al, ah)
        else:
            lo, hi = self.range(l)
            if lo == 0:
                self.assume_le0(ladd(lmul(l, -1), 1))
            elif hi == 0:
                self.assume_le0(ladd(l, 1))
        self.facts[("eq0", l)] = False

    def le0(self, l, label=""):
        k = self.known_le0(l)
        if k is not None:
            return k
        l = self.norm(l)
        if self.choose(2, label or "%s <= 0" % show_lin(l)) == 0:
            self.assume_le0(l)
            return True
        self.assume_le0(ladd(lmul(l, -1), 1))
        return False

    def eq0(self, l, label=""):
        k = self.known_eq0(l)
        if k is not None:
            return k
        l = self.norm(l)
        if self.choose(2, label or "%s == 0" % show_lin(l)) == 0:
            self.assume_eq0(l)
            return True
        self.assume_ne0(l)
        return False

    def empty(self):
        """True when the linear constraints collected on this trace contradict each other (elimination of variables, with integer rounding)"""
        cons = set()

        def add(l):
            l = self.norm(l)
            if not l.t:
                return l.c <= 0
            g = 0
            for _, k in l.t:
                g = gcd(g, abs(k))
            if g > 1:
                l = Lin(-((-l.c) // g), tuple((a, k // g) for a, k in l.t))
            cons.add((l.c, tuple(sorted(((a, k) for a, k in l.t), key=lambda x: _aid(x[0])))))
            return True
        for f in list(self.ineqs):
            if not add(f):
                return True
        for key, v in list(self.facts.items()):
            if isinstance(key, tuple) and key and key[0] == "eq0" and v is False and isinstance(key[1], Lin):
                l = self.norm(key[1])
                if not l.t:
                    if l.c == 0:
                        return True
                    continue
                lo, hi = self.range(l)
                if lo is not None and lo >= 0 or self.known_le0(lmul(l, -1)) is True:
                    if not add(lsub(Lin(1), l)):
                        return True
                elif hi is not None and hi <= 0 or self.known_le0(l) is True:
                    if not add(ladd(l, 1)):
                        return True
        for a in {a for c, t in cons for a, _ in t}:
            lo, hi = self.bound(a)
            if lo is not None:
                cons.add((lo, ((a, -1),)))
            if hi is not None:
                cons.add((-hi, ((a, 1),)))
        work = [(c, dict(t)) for c, t in cons]
        while True:
            vs = {}
            for c, t in work:
                for a, k in t.items():
                    p = vs.setdefault(a, [0, 0])
                    p[k > 0] += 1
            if not vs:
                return False
            a = min(vs, key=lambda x: (vs[x][0] * vs[x][1] - vs[x][0] - vs[x][1]))
            pos = [(c, t) for c, t in work if t.get(a, 0) > 0]
            neg = [(c, t) for c, t in work if t.get(a, 0) < 0]
            out = {}
            rest = [(c, t) for c, t in work if a not in t]
            for c1, t1 in pos:
                for c2, t2 in neg:
                    k1, k2 = t1[a], -t2[a]
                    t = {}
                    for x, k in t1.items():
                        t[x] = t.get(x, 0) + k * k2
                    for x, k in t2.items():
                        t[x] = t.get(x, 0) + k * k1
                    t = {x: k for x, k in t.items() if k}
                    c = c1 * k2 + c2 * k1
                    if not t:
                        if c > 0:
                            return True
                        continue
                    g = 0
                    for k in t.values():
                        g = gcd(g, abs(k))
                    if g > 1:
                        c = -((-c) // g)
                        t = {x: k // g for x, k in t.items()}
                    key = frozenset(t.items())
                    if key not in out or out[key][0] < c:
                        out[key] = (c, t)
            work = rest + list(out.values())
            if len(work) > 600:
                return False

    def le(self, a, b):
        return self.le0(lsub(a, b))

    def lt(self, a, b):
        return self.le0(ladd(lsub(a, b), 1))

    def concretize(self, l, limit=4):
        """small-interval value -> concrete int by partitioning; None if too wide"""
        l = self.norm(l)
        if not l.t:
            return l.c
        lo, hi = self.range(l)
        if lo is None or hi is None or hi - lo >= limit:
            return None
        for v in range(lo, hi):
            if self.eq0(lsub(l, v)):
                return v
        self.assume_eq0(lsub(l, hi))
        return hi

    # int operators beyond affine
    def iop(self, op, x, y):
        x, y = self.norm(x), self.norm(y)
        if not x.t and not y.t:
            a, b = x.c, y.c
            return {"&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b,
                    ">>": lambda: a >> b, "//": lambda: a // b, "%": lambda: a % b, "*": lambda: a * b,
                    "**": lambda: a ** b}[op]()
        if op == "*":
            if not x.t:
                return pyint(lmul(y, x.c))
            if not y.t:
                return pyint(lmul(x, y.c))
        if op == "<<" and not y.t:
            return pyint(lmul(x, 1 << y.c))
        lo, hi = self.range(x)
        if op == "&":
            if not x.t:
                x, y = y, x
                lo, hi = self.range(x)
            if not y.t and y.c >= 0:
                m = y.c
                if m == 0:
                    return 0
                if lo is not None and lo >= 0 and hi is not None and (m & (m + 1)) == 0 and hi <= m:
                    return pyint(x)
                # contiguous mask on a single decoded byte/bit-range
                sh = (m & -m).bit_length() - 1
                w = (m >> sh)
                if (w & (w + 1)) == 0:
                    b = self.bits_of(x, sh, w.bit_length())
                    if b is not None:
                        return pyint(lmul(b, 1 << sh))
                    b = self.byte_bits(x, sh, w.bit_length())
                    if b is not None:
                        return pyint(lmul(lin(b), 1 << sh))
        if op == ">>" and not y.t and y.c >= 0:
            b = self.bits_of(x, y.c, None)
            if b is not None:
                return pyint(b)
            b = self.byte_bits(x, y.c, None)
            if b is not None:
                return b
        if op == "%" and not y.t and y.c > 0:
            if lo is not None and lo >= 0 and hi is not None and hi < y.c:
                return pyint(x)
            if all(k % y.c == 0 for _, k in x.t):
                return x.c % y.c
            m = y.c
            if m & (m - 1) == 0:
                b = self.bits_of(x, 0, m.bit_length() - 1)
                if b is not None:
                    return pyint(b)
                b = self.byte_bits(x, 0, m.bit_length() - 1)
                if b is not None:
                    return b
        if op == "//" and not y.t and y.c > 0:
            if all(k % y.c == 0 for _, k in x.t):
                return pyint(Lin(x.c // y.c, tuple((a, k // y.c) for a, k in x.t)))
            if y.c & (y.c - 1) == 0:
                b = self.byte_bits(x, y.c.bit_length() - 1, None)
                if b is not None:
                    return b
            q = ("op", op, x, y)
            if q not in self.bounds and q not in self.sub:
                self.bound(q)
                self.ineqs.append(lsub(lmul(latom(q), y.c), x))
                self.ineqs.append(ladd(lsub(x, lmul(latom(q), y.c)), 1 - y.c))
        if op in ("|", "^"):
            p, q = self.bit_form(x), self.bit_form(y)
            if p is not None and q is not None and not p & q:
                return pyint(ladd(x, y))
            for p, q in ((x, y), (y, x)):           # p a multiple of 2**k, 0 <= q < 2**k
                g = p.c
                for _, k in p.t:
                    g = gcd(g, abs(k))
                lo, hi = self.range(q)
                if g and lo is not None and lo >= 0 and hi is not None and hi < (g & -g):
                    return pyint(self.norm(ladd(x, y)))
        if op == "|" and not y.t and y.c == 0:
            return pyint(x)
        if op == "|" and not x.t and x.c == 0:
            return pyint(y)
        return pyint(self.norm(latom(("op", op, x, y))))

    def width(self, l):
        """the fewest bytes that hold every value of l; None when l may be negative or is unbounded"""
        lo, hi = self.range(l)
        if lo is None or hi is None or lo < 0:
            return None
        w = max(1, (hi.bit_length() + 7) // 8)
        if w > 1 and self.ineqs:
            for c in (1, 2, 4):
                if c < w and self.known_le0(ladd(l, 1 - (1 << (8 * c)))) is True:
                    return c
        return w

    def byte_bits(self, x, off, w):
        """bits [off,off+w) of a wide integer as a field of its little-endian bytes; None when not byte-aligned"""
        W = self.width(x)
        if W is None or W < 2:
            return None
        if w is None:
            w = max(0, 8 * W - off)
        w = min(w, 8 * W - off)
        if w <= 0:
            return 0
        b = self.le_bytes(x, W)
        if off % 8 == 0 and w % 8 == 0:
            r = self.dec(self.bslice(b, Lin(off // 8), Lin((off + w) // 8)))
            if off and off + w == 8 * W and isinstance(r, Lin):
                key = ("shiftdef", x, off)
                if key not in self.facts:
                    self.facts[key] = True
                    self.assume_le0(lsub(lmul(r, 1 << off), x))
                    self.assume_le0(ladd(lsub(x, lmul(r, 1 << off)), 1 - (1 << off)))
            return r
        if off // 8 == (off + w - 1) // 8:
            k = off // 8
            return self.getbits(self.bslice(b, Lin(k), Lin(k + 1)), off % 8, w)
        return None

    def bits_of(self, x, off, w):
        """bits [off,off+w) of x when x is exactly one decoded field / bit range"""
        if x.t and x.c >= 0 and all(k > 0 and k & (k - 1) == 0 and a[0] == "bits" and a[3] == 1 for a, k in x.t):
            ps = [k.bit_length() - 1 for _, k in x.t]
            if len(set(ps)) == len(ps) and not any(x.c >> p & 1 for p in ps):
                m = (1 << w) - 1 if w is not None else -1
                return mk((x.c >> off) & m, {a: 1 << (p - off) for (a, _), p in zip(x.t, ps) if p >= off and (w is None or p < off + w)})
        if x.c or len(x.t) != 1 or x.t[0][1] != 1:
            return None
        a = x.t[0][0]
        if a[0] == "dec" and not a[2]:
            n = self.norm(self.blen(a[1]))
            if n.t or n.c != 1:
                return None
            w = 8 - off if w is None else min(w, 8 - off)
            return Lin(0) if w <= 0 else lin(self.getbits(a[1], off, w))
        return None

    def bit_form(self, x):
        """x = constant + sum of distinct powers of two times single bits, as {position}; None otherwise"""
        if x.c < 0 or not all(k > 0 and k & (k - 1) == 0 and a[0] == "bits" and a[3] == 1 for a, k in x.t):
            return None
        ps = [k.bit_length() - 1 for _, k in x.t]
        if len(set(ps)) != len(ps) or any(x.c >> p & 1 for p in ps):
            return None
        return set(ps) | {i for i in range(x.c.bit_length()) if x.c >> i & 1}

    # ------------------------------------------------------------ bytes
    def alen(self, a):
        f = fixed_len(a)
        if f is not None:
            return f
        if a[0] == "box":
            return ladd(self.blen(a[1]), 16)
        if a[0] == "open":
            return ladd(self.blen(a[1]), -16)
        if a[0] == "urandom":
            return lin(a[1])
        if a[0] == "hexascii":
            return lmul(self.blen(a[1]), 2)
        if a in self.lens:
            return self.lens[a]
        return latom(("len", a))

    def blen(self, v):
        if isinstance(v, (bytes, bytearray)):
            return Lin(len(v))
        n = Lin(0)
        for s in v.segs:
            n = ladd(n, self.seglen(s))
        return n

    def seglen(self, s):
        if s[0] == "c":
            return Lin(len(s[1]))
        if s[0] == "z":
            return s[1]
        return lsub(s[3], s[2])

    def atom_bytes(self, a):
        return self.mkb([("s", a, Lin(0), self.alen(a))])

    def mkb(self, segs):
        """normal form of a segment list -> bytes | SBytes"""
        out = []
        for s in segs:
            if s[0] == "c":
                if not s[1]:
                    continue
            elif s[0] == "z":
                n = self.norm(s[1])
                if not n.t:
                    if n.c <= 0:
                        continue
                    s = ("c", bytes(n.c))
                else:
                    s = ("z", n)
            else:
                _, a, lo, hi = s
                lo, hi = self.norm(lo), self.norm(hi)
                if lo == hi:
                    continue
                if a[0] == "cst":
                    s = ("s", a, lo, hi) if lo.t or hi.t else ("c", a[1][lo.c:hi.c])
                    self._push(out, s)
                    continue
                a = self.norm_atom(a)
                if isinstance(a, (bytes, SBytes)):
                    full = self.bslice(a, lo, hi)
                    for t in segs_of(full):
                        self._push(out, t)
                    continue
                s = self.known_seg(a, lo, hi)
            self._push(out, s)
        if not out:
            return b""
        if len(out) == 1 and out[0][0] == "c":
            return out[0][1]
        return SBytes(out)

    def _push(self, out, s):
        if out:
            p = out[-1]
            if p[0] == "c" and s[0] == "c":
                out[-1] = ("c", p[1] + s[1])
                return
            if p[0] == "s" and s[0] == "s" and p[1] == s[1] and self.norm(p[3]) == self.norm(s[2]):
                out[-1] = ("s", p[1], p[2], s[3])
                return
            if p[0] == "z" and s[0] == "z":
                out[-1] = ("z", ladd(p[1], s[1]))
                return
        out.append(s)

    def norm_atom(self, a):
        if a[0] in ("in", "sym"):
            return a
        if a[0] == "cell":
            return self.cells[a[1]]
        ver = (self.ver, len(self.taken), len(self.known), len(self.sub))
        m = self.nacache.get(a)
        if m is not None and m[0] == ver:
            return m[1]
        r = self._norm_atom(a)
        self.nacache[a] = (ver, r)
        return r

    def _norm_atom(self, a):
        if a[0] == "be":
            l = self.norm(a[1])
            if not l.t:
                return (l.c & ((1 << (8 * a[2])) - 1)).to_bytes(a[2], "big")
            if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1 and l.t[0][0][0] == "decb":
                b = l.t[0][0][1]
                n = self.norm(self.blen(b))
                if not n.t and n.c == a[2]:
                    return b
        if a[0] == "le":
            l = self.norm(a[1])
            if not l.t:
                return l.c.to_bytes(a[2], "little", signed=l.c < 0)
            if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1 and l.t[0][0][0] == "dec":
                b = l.t[0][0][1]
                n = self.norm(self.blen(b))
                if not n.t and n.c == a[2]:
                    return b
            W = self.width(l)
            if W is not None and W < a[2]:
                return self.mkb([("s", ("le", l, W), Lin(0), Lin(W)), ("z", Lin(a[2] - W))])
            if W is not None and W > a[2]:
                return self.mkb([("s", ("le", l, W), Lin(0), Lin(a[2]))])
            if l != a[1]:
                return ("le", l, a[2])
            return a
        if a[0] in CRYPTO:
            b = (a[0],) + tuple(self.renorm(x) if isinstance(x, SBytes) else x for x in a[1:])
            return a if b == a else b
        if a[0] == "bb":
            ps = tuple((o, w, self.norm(v)) for o, w, v in a[1])
            if all(not p[2].t for p in ps):
                return bytes([sum(p[2].c << p[0] for p in ps) & 255])
            for base in {x[1] for p in ps for x, _ in p[2].t if x[0] == "bits"}:
                if all(p[2] == self.norm(lin(self.getbits(base, p[0], p[1]))) for p in ps):
                    return base
            return ("bb", ps)
        return a

    def known_seg(self, a, lo, hi):
        if self.known:
            for (ka, kl, kh, kb) in self.known:
                if ka == a:
                    o = lsub(lo, kl)
                    e = lsub(hi, kl)
                    if not o.t and not e.t and o.c >= 0 and e.c <= len(kb):
                        return ("c", kb[o.c:e.c])
            m = self.kbytes.get(a)
            if m and not lo.t and not hi.t and hi.c - lo.c <= len(m):
                r = [m.get(i) for i in range(lo.c, hi.c)]
                if None not in r:
                    return ("c", bytes(r))
        return ("s", a, lo, hi)

    def split(self, v):
        """segments of v with every known byte written out"""
        if not self.known or not isinstance(v, SBytes):
            return v
        segs = []
        for s in self._split_sym(v.segs):
            m = self.kbytes.get(s[1]) if s[0] == "s" else None
            if not m or s[2].t:
                segs.append(s)
                continue
            _, a, lo, hi = s
            pos = lo.c
            end = hi.c if not hi.t else None
            for i in sorted(m):
                if i < pos or (end is not None and i >= end):
                    continue
                if end is None and self.known_le0(lsub(Lin(i + 1), hi)) is not True:
                    continue
                if i > pos:
                    segs.append(("s", a, Lin(pos), Lin(i)))
                segs.append(("c", bytes([m[i]])))
                pos = i + 1
            if end is None or pos < end:
                segs.append(("s", a, Lin(pos), hi))
        return self.mkb(segs)

    def _split_sym(self, segs):
        """cut out the known constants at symbolic offsets"""
        segs = list(segs)
        for (ka, kl, kh, kb) in self.known:
            if not kl.t:
                continue
            kl, kh = self.norm(kl), self.norm(kh)
            for i, s in enumerate(segs):
                if s[0] == "s" and s[1] == ka and (s[2] == kl or self.known_le0(lsub(s[2], kl)) is True) and (s[3] == kh or self.known_le0(lsub(kh, s[3])) is True):
                    segs[i:i + 1] = [x for x in (("s", ka, s[2], kl), ("c", kb), ("s", ka, kh, s[3])) if x[0] == "c" or x[2] != x[3]]
                    break
        return segs

    def renorm(self, v):
        if isinstance(v, SBytes):
            return self.mkb(v.segs)
        return v

    def cat(self, vs):
        segs = []
        for v in vs:
            segs.extend(segs_of(v))
        return self.mkb(segs)

    def zeros(self, n):
        return self.mkb([("z", lin(n))])

    def bslice(self, v, lo, hi):
        """v[lo:hi] for 0 <= lo <= hi <= len(v) (already clamped)"""
        lo, hi = self.norm(lo), self.norm(hi)
        if isinstance(v, (bytes, bytearray)) and not lo.t and not hi.t:
            return bytes(v[lo.c:hi.c])
        if lo == hi:
            return b""
        out = []
        pos = Lin(0)
        segs = segs_of(v)
        for i, s in enumerate(segs):
            L = self.seglen(s)
            end = self.norm(ladd(pos, L))
            # skip segments known to lie before lo
            if lo != pos:
                if end == lo or self.known_le0(lsub(end, lo)) is True:
                    pos = end
                    continue
                if self.known_le0(lsub(lo, end)) is not True and self.le(end, lo):
                    pos = end
                    continue
            if pos == hi:
                break
            if pos != Lin(0):
                if self.known_le0(lsub(hi, pos)) is True:
                    break
                if self.known_le0(lsub(pos, hi)) is not True and self.le(hi, pos):
                    break
            if pos == lo or self.le(lo, pos):
                a = Lin(0)
            else:
                a = lsub(lo, pos)
            if end == hi:
                b = L
            elif self.le(end, hi):
                b = L
                if i == len(segs) - 1:          # hi <= len(v) by precondition
                    self.assume_eq0(lsub(end, hi))
                    b = self.norm(L)
            else:
                b = lsub(hi, pos)
            out.append(self.subseg(s, self.norm(a), self.norm(b)))
            pos = end
        return self.mkb(out)

    def subseg(self, s, a, b):
        if s[0] == "c":
            if not a.t and not b.t:
                return ("c", s[1][a.c:b.c])
            return ("s", ("cst", s[1]), a, b)
        if s[0] == "z":
            return ("z", lsub(b, a))
        return ("s", s[1], self.norm(ladd(s[2], a)), self.norm(ladd(s[2], b)))

    def pyslice(self, v, lo, hi):
        """Python slice semantics with optional/negative/overlong bounds"""
        n = self.norm(self.blen(v))

        def clamp(x, dflt):
            if x is None:
                return dflt
            x = self.norm(x)
            if self.le0(ladd(x, 1)):            # negative
                x = self.norm(ladd(x, n))
                if self.le0(ladd(x, 1)):
                    return Lin(0)
                return x
            if x == n:
                return n
            return x if self.le(x, n) else self.norm(n)
        a = clamp(lo, Lin(0))
        b = clamp(hi, n)
        n2 = self.norm(n)
        a, b = self.norm(a), self.norm(b)
        if a == b:
            return b""
        if a != Lin(0) and b != n2 and self.known_le0(lsub(a, b)) is not True:
            if self.le(b, a):
                return b""
        return self.bslice(v, a, b)

    def dec(self, v, signed=False):
        """little-endian decode"""
        if isinstance(v, (bytes, bytearray)):
            return int.from_bytes(v, "little", signed=signed)
        v = self.renorm(v)
        if isinstance(v, bytes):
            return int.from_bytes(v, "little", signed=signed)
        if len(v.segs) == 1 and v.segs[0][0] == "s":
            _, a, lo, hi = v.segs[0]
            if a[0] == "le" and lo == Lin(0) and hi == Lin(a[2]):
                l = self.norm(a[1])
                rl, rh = self.range(l)
                if not signed and rl is not None and rl >= 0:
                    return pyint(l)
                if signed and rh is not None and rh < (1 << (8 * a[2] - 1)):
                    return pyint(l)
            if a[0] == "bb" and not signed:
                return pyint(self.bb_value(a))
        if len(v.segs) > 1:                     # field by field
            t, off = Lin(0), 0
            for i, g in enumerate(v.segs):
                n = self.norm(self.seglen(g))
                if n.t:
                    break
                t = ladd(t, lmul(lin(self.dec(self.mkb([g]), signed and i == len(v.segs) - 1)), 1 << off))
                off += 8 * n.c
            else:
                return pyint(self.norm(t))
        return pyint(self.norm(latom(("dec", v, signed))))

    def bb_value(self, a):
        t = Lin(0)
        for (o, w, val) in a[1]:
            t = ladd(t, lmul(lin(val), 1 << o))
        return self.norm(t)

    def dec_be(self, v, signed=False):
        v = self.renorm(v)
        if isinstance(v, (bytes, bytearray)):
            return int.from_bytes(v, "big", signed=signed)
        n = self.norm(self.blen(v))
        if not n.t and n.c == 1:
            return self.dec(v, signed)
        if len(v.segs) == 1 and v.segs[0][0] == "s":
            _, a, lo, hi = v.segs[0]
            if a[0] == "be" and lo == Lin(0) and hi == Lin(a[2]):
                l = self.norm(a[1])
                rl, rh = self.range(l)
                if not signed and rl is not None and rl >= 0:
                    return pyint(l)
                if signed and rh is not None and rh < (1 << (8 * a[2] - 1)):
                    return pyint(l)
        return pyint(self.norm(latom(("decb", v, signed))))

    def be_bytes(self, x, w):
        x = self.norm(x)
        if w == 1:
            return self.le_bytes(x, 1)
        if not x.t:
            return (x.c & ((1 << (8 * w)) - 1)).to_bytes(w, "big")
        return self.mkb([("s", ("be", x, w), Lin(0), Lin(w))])

    def le_bytes(self, x, w):
        x = self.norm(x)
        if not x.t:
            return (x.c & ((1 << (8 * w)) - 1)).to_bytes(w, "little")
        return self.mkb([("s", ("le", x, w), Lin(0), Lin(w))])

    # bit-fields within one byte
    def byte_pieces(self, b):
        if isinstance(b, bytes):
            return ((0, 8, b[0]),)
        if len(b.segs) == 1 and b.segs[0][0] == "s" and b.segs[0][1][0] == "bb":
            return b.segs[0][1][1]
        if len(b.segs) == 1 and b.segs[0][0] == "s" and b.segs[0][1][0] == "le" and b.segs[0][1][2] == 1:
            return ((0, 8, b.segs[0][1][1]),)
        return ((0, 8, ("byte", b)),)

    def piece_bits(self, val, o, w):
        """bits [o,o+w) of a piece value"""
        if isinstance(val, tuple) and val[0] == "byte":
            t = Lin(0)
            for i in range(w):
                t = ladd(t, lmul(latom(("bits", val[1], o + i, 1)), 1 << i))
            return t
        l = self.norm(val)
        if not l.t:
            return Lin((l.c >> o) & ((1 << w) - 1))
        r = self.range(l)
        if o == 0 and r[0] is not None and r[0] >= 0 and r[1] is not None and r[1] < (1 << w):
            return l
        b = self.bits_of(l, o, w)
        if b is not None:
            return b
        return lin(self.iop("&", self.iop(">>", l, o), (1 << w) - 1))

    def getbits(self, b, off, w):
        b = self.renorm(b)
        t = Lin(0)
        for (o, pw, val) in self.byte_pieces(b):
            s, e = max(o, off), min(o + pw, off + w)
            if s < e:
                t = ladd(t, lmul(self.piece_bits(val, s - o, e - s), 1 << (s - off)))
        return pyint(self.norm(t))

    def setbits(self, b, off, w, v):
        b = self.renorm(b)
        ps = []
        for (o, pw, val) in self.byte_pieces(b):
            e = o + pw
            if o < off:
                x = min(e, off)
                ps.append((o, x - o, self._p(val, 0, x - o, pw)))
            if e > off + w:
                x = max(o, off + w)
                ps.append((x, e - x, self._p(val, x - o, e - x, pw)))
        ps.append((off, w, lin(v)))
        ps.sort()
        if all(not self.norm(p[2]).t for p in ps):
            return bytes([sum(self.norm(p[2]).c << p[0] for p in ps)])
        # all bits of one and the same underlying byte?
        for base in {a[1] for p in ps for a, _ in self.norm(p[2]).t if a[0] == "bits"}:
            if all(self.norm(val) == self.norm(lin(self.getbits(base, o, pw))) for o, pw, val in ps):
                return base
        return self.mkb([("s", ("bb", tuple((o, pw, self.norm(val)) for o, pw, val in ps)), Lin(0), Lin(1))])

    def _p(self, val, o, w, pw):
        return self.piece_bits(val, o, w)

    def known_beq(self, a, b):
        a, b = self.renorm(a), self.renorm(b)
        if a == b:
            return True
        if isinstance(a, bytes) and isinstance(b, bytes):
            return False
        if self.known_eq0(lsub(self.blen(a), self.blen(b))) is False:
            return False
        v = self.facts.get(beq_key(a, b))
        if v is not None:
            return v
        a2, b2 = self.split(a), self.split(b)
        if a2 == b2:
            return True
        if definitely_different(self, a2, b2):
            return False
        return None

    def beq(self, a, b):
        k = self.known_beq(a, b)
        if k is not None:
            return k
        d = lsub(self.blen(a), self.blen(b))
        if self.known_eq0(d) is None:
            if not self.eq0(d):
                return False
            k = self.known_beq(a, b)
            if k is not None:
                return k
        a, b = self.renorm(a), self.renorm(b)
        # single byte vs constant: use the integer view (canonical)
        n = self.norm(self.blen(a))
        if not n.t and n.c <= 1:
            if isinstance(a, bytes) or isinstance(b, bytes):
                return self.eq0(lsub(lin(self.dec(a)), lin(self.dec(b))))
        # strip common prefix
        sa, sb = list(segs_of(a)), list(segs_of(b))
        while sa and sb and sa[0] == sb[0]:
            sa.pop(0), sb.pop(0)
        while sa and sb and sa[-1] == sb[-1]:
            sa.pop(), sb.pop()
        a2, b2 = self.mkb(sa), self.mkb(sb)
        n = self.norm(self.blen(a2))
        if (isinstance(a2, bytes) or isinstance(b2, bytes)) and not n.t and n.c <= 8:
            # short constants are compared byte by byte, the canonical form shared with integer views of single bytes
            r = all(self.eq0(lsub(lin(self.dec(self.bslice(a2, Lin(i), Lin(i + 1)))), lin(self.dec(self.bslice(b2, Lin(i), Lin(i + 1)))))) for i in range(n.c))
            return r
        key = beq_key(a2, b2)
        if self.opaque(key, "%s == %s" % (show(a2), show(b2))):
            for x, y in ((a2, b2), (b2, a2)):
                if isinstance(y, bytes) and isinstance(x, SBytes) and len(x.segs) == 1 and x.segs[0][0] == "s":
                    self.learn(x.segs[0][1], x.segs[0][2], x.segs[0][3], y)
            self.facts[beq_key(a, b)] = True
            return True
        self.facts[beq_key(a, b)] = False
        return False


def occurs(a, t):
    """atom a inside term t"""
    if isinstance(t, Lin):
        return any(x == a or occurs(a, x) for x, _ in t.t)
    if isinstance(t, SBytes):
        return any(g[0] == "s" and (g[1] == a or occurs(a, g[1]) or occurs(a, g[2]) or occurs(a, g[3])) or g[0] == "z" and occurs(a, g[1]) for g in t.segs)
    if isinstance(t, tuple):
        if t and t[0] in ("op", "quot"):          # operands of op atoms are not rewritten
            return False
        return any(x == a or isinstance(x, (tuple, Lin, SBytes)) and occurs(a, x) for x in t)
    return False


def beq_key(a, b):
    x, y = sorted((a, b), key=repr)
    return ("beq", x, y)


def definitely_different(ctx, a, b):
    sa, sb = segs_of(a), segs_of(b)
    i = 0
    while i < len(sa) and i < len(sb):
        x, y = sa[i], sb[i]
        if x == y:
            i += 1
            continue
        if x[0] == "c" and y[0] == "c":
            n = min(len(x[1]), len(y[1]))
            return x[1][:n] != y[1][:n]
        return False
    return False


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a
