"""Exact decision about fixed-length byte strings that satisfy a conjunction of regular-expression facts (subset construction over re's parse tree)."""
import re
try:
    from re import _parser as sp, _constants as sc
except ImportError:         # Python < 3.11
    import sre_parse as sp
    import sre_constants as sc


class Unknown(Exception):
    pass


DIGIT = frozenset(b"0123456789")
SPACE = frozenset(b" \t\n\r\f\v")
WORD = frozenset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
ALL = frozenset(range(256))


def fold(s):
    o = set(s)
    for b in s:
        c = bytes([b])
        o |= set(c.lower()) | set(c.upper())
    return frozenset(o)


class Nfa:
    def __init__(self, pattern, flags):
        if isinstance(pattern, str):
            # matched against text decoded from bytes: only pure ASCII classes are handled exactly
            self.text = True
        else:
            self.text = False
        p = sp.parse(pattern, flags)
        self.flags = p.state.flags if hasattr(p, "state") else p.pattern.flags
        self.eps, self.mv, self.at = {}, {}, {}
        self.n = 0
        self.start = self.new()
        self.acc = self.new()
        self.seq(list(p), self.start, self.acc)

    def new(self):
        self.n += 1
        return self.n

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def m(self, a, s, b):
        if self.text and any(x > 127 for x in s):
            s = frozenset(x for x in s if x < 128)      # decoded ASCII text
        if self.flags & re.I:
            s = fold(s)
        self.mv.setdefault(a, []).append((s, b))

    def seq(self, items, a, b):
        cur = a
        for i, it in enumerate(items):
            nxt = b if i == len(items) - 1 else self.new()
            self.node(it, cur, nxt)
            cur = nxt
        if not items:
            self.e(a, b)

    def cat(self, c):
        c = str(c).split("_", 1)[1]
        neg = c.startswith("NOT_")
        base = {"DIGIT": DIGIT, "SPACE": SPACE, "WORD": WORD}.get(c.replace("NOT_", ""))
        if base is None:
            raise Unknown("category " + c)
        if self.text and not self.flags & re.A:
            if neg:
                raise Unknown("unicode category")
        return ALL - base if neg else base

    def node(self, it, a, b):
        op, av = it
        if op is sc.LITERAL:
            self.m(a, frozenset([av]) if av < 256 else frozenset(), b)
        elif op is sc.NOT_LITERAL:
            self.m(a, ALL - {av}, b)
        elif op is sc.ANY:
            self.m(a, ALL if self.flags & re.S else ALL - {10}, b)
        elif op is sc.IN:
            s, neg = set(), False
            for o, v in av:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    s.add(v)
                elif o is sc.RANGE:
                    s |= set(range(v[0], min(v[1], 255) + 1))
                elif o is sc.CATEGORY:
                    s |= self.cat(v)
                else:
                    raise Unknown(str(o))
            s = frozenset(x for x in s if x < 256)
            if neg and self.flags & re.I:
                s = fold(s)
            self.m(a, ALL - s if neg else s, b)
        elif op is sc.CATEGORY:
            self.m(a, self.cat(av), b)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT" and False:
            lo, hi, sub = av
            cur = a
            if lo > 64:
                raise Unknown("repeat")
            for _ in range(lo):
                n = self.new()
                self.seq(list(sub), cur, n)
                cur = n
            if hi is sc.MAXREPEAT or hi > 64:
                n = self.new()
                self.e(cur, n)
                n2 = self.new()
                self.seq(list(sub), n, n2)
                self.e(n2, n)
                self.e(n, b)
            else:
                self.e(cur, b)
                for _ in range(hi - lo):
                    n = self.new()
                    self.seq(list(sub), cur, n)
                    self.e(n, b)
                    cur = n
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unknown("inline flags")
            self.seq(list(av[3]), a, b)
        elif op is sc.BRANCH:
            for alt in av[1]:
                self.seq(list(alt), a, b)
        elif op is sc.AT:
            k = str(av)
            if k in ("AT_END",) and self.flags & re.M:
                raise Unknown("multiline")
            if k == "AT_BEGINNING" and self.flags & re.M:
                raise Unknown("multiline")
            if k not in ("AT_BEGINNING", "AT_BEGINNING_STRING", "AT_END", "AT_END_STRING"):
                raise Unknown(k)
            self.at.setdefault(a, []).append((k, b))
        else:
            raise Unknown(str(op))

    def closure(self, toks, pos, n):
        out, todo = set(), list(toks)
        while todo:
            t = todo.pop()
            if t in out:
                continue
            out.add(t)
            s, nl = t
            for x in self.eps.get(s, ()):
                todo.append((x, nl))
            for k, x in self.at.get(s, ()):
                if k.startswith("AT_BEGINNING"):
                    if pos == 0:
                        todo.append((x, nl))
                elif pos == n:
                    todo.append((x, nl))
                elif k == "AT_END" and pos == n - 1:
                    todo.append((x, True))
        return frozenset(out)

    def step(self, toks, b):
        return {(x, False) for s, nl in toks if not (nl and b != 10) for cs, x in self.mv.get(s, ()) if b in cs}


class Fact:
    def __init__(self, mode, pattern, flags, truth, n):
        self.nfa = Nfa(pattern, flags)
        self.mode, self.truth, self.n = mode, truth, n

    def init(self):
        return self.nfa.closure({(self.nfa.start, False)}, 0, self.n), self.acc(self.nfa.closure({(self.nfa.start, False)}, 0, self.n), 0)

    def acc(self, toks, pos):
        return (self.mode != "fullmatch" or pos == self.n) and (self.nfa.acc, False) in toks

    def next(self, st, pos, b):
        toks, ok = st
        if self.mode != "fullmatch" and b == 10 and (self.nfa.acc, True) in toks:
            ok = True
        t = self.nfa.step(toks, b)
        if self.mode == "search":
            t.add((self.nfa.start, False))
        c = self.nfa.closure(t, pos + 1, self.n)
        if self.mode == "fullmatch":
            return c, self.acc(c, pos + 1)
        return c, ok or self.acc(c, pos + 1)


def classes(facts, alphabet, sets):
    """bytes grouped by indistinguishability; one representative each"""
    masks = [alphabet, frozenset([10])] + list(sets)
    for f in facts:
        for l in f.nfa.mv.values():
            masks += [s for s, _ in l]
    g = {}
    for b in range(256):
        g.setdefault(tuple(b in s for s in masks), b)
    return list(g.values())


def illegal_witness(facts, n, alphabet, allowed=None):
    """facts: [(mode, pattern, flags, truth)]; allowed: {pos: set of bytes}. A string of length n that satisfies all facts but has a byte
    outside alphabet; None if there is none."""
    fs = [Fact(m, p, fl, t, n) for m, p, fl, t in facts]
    allowed = allowed or {}
    reps = classes(fs, frozenset(alphabet), [frozenset(s) for s in allowed.values()])
    cur = {(tuple(f.init() for f in fs), False): b""}
    for pos in range(n):
        nx = {}
        for (sts, bad), w in cur.items():
            for b in reps:
                if pos in allowed and b not in allowed[pos]:
                    continue
                k = (tuple(f.next(s, pos, b) for f, s in zip(fs, sts)), bad or b not in alphabet)
                if k not in nx:
                    nx[k] = w + bytes([b])
        cur = nx
    for (sts, bad), w in cur.items():
        if bad and all(s[1] == f.truth for f, s in zip(fs, sts)):
            return w
    return None
