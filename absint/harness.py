"""Driver: enumerates the trace partitions of a scenario and provides the abstract environment
(channels, clocks, sockets, streams, ideal back end) in which the entry points are analysed."""
import os
import sys
import threading
import time

from .domain import *
from .interp import (ANat, BArr, Blocked, Cls, Coro, Func, Gen, Interp, Lin, MView, NMeth, Nat, Obj, PyExc, SBytes, SMeth, SStr, Top,
                     Unsupported, Infeasible, Cut, BMeth)

ROOT = os.environ.get("SALT_REPO", "/repo")


class Missing(Exception):
    """an anchor of the analysis (module, class, method of the public API) is gone"""


class Finding:
    def __init__(self, scenario, rule, msg, loc, trace, decisions):
        self.scenario, self.rule, self.msg, self.loc, self.trace, self.decisions = scenario, rule, msg, loc, trace, decisions

    def key(self):
        return (self.rule, self.loc.split(" (")[-1].rstrip(")") if self.loc else "", self.scenario)


class Stats:
    def __init__(self):
        self.traces = self.decided = self.undecided = self.cuts = self.infeasible = self.blocked = 0
        self.obligations = self.steps = self.suppressed = 0
        self.funcs = set()
        self.scen = {}
        self.why = {}
        self.truncated = []
        self.samples = []

    def note(self, why):
        self.why[why] = self.why.get(why, 0) + 1


class Run:
    """one trace partition of one scenario"""

    def __init__(self, scenario, prefix, stats, env=None, K=None):
        self.scenario = scenario
        self.stats = stats
        self.ctx = Ctx(prefix)
        if K:
            self.ctx.K = K
        self.I = Interp(self.ctx, ROOT, dict(env or {}))
        self.T = self.I.models.crypto.T
        self.findings = []
        self.obl = 0
        self.cfg = {}
        self.ended = None
        self.mark = 0           # effects before this one belong to the history

    # ------------------------------------------------------------ obligations
    def check(self, cond, rule, msg, ev=None, loc=None):
        """an obligation; cond must hold"""
        self.obl += 1
        if cond:
            return True
        n = ev.n if ev is not None else len(self.I.events)
        if self.I.imprecise is not None and self.I.imprecise[0] <= n:
            self.stats.suppressed += 1
            self.stats.note("after " + self.I.imprecise[1])
            return False
        t = next((e for e in self.I.events[:n] if e.kind == "topcall" and
                  any(isinstance(x, (Obj, BArr, MView, list, dict, set)) for x in e.data[1])), None)
        if t is not None:
            self.stats.suppressed += 1
            self.stats.note("after unmodelled call %s at %s" % (t.data[0], t.loc))
            return False
        if self.ctx.empty():
            raise Infeasible()
        l = loc or (ev.loc if ev is not None else self.lastloc())
        m = msg() if callable(msg) else msg
        self.findings.append(Finding(self.scenario, rule, m, l, self.show_trace(), list(self.ctx.labels)))
        return False

    def lastloc(self):
        return self.I.lastpos()

    def show_trace(self):
        out = []
        for e in self.I.events[-60:]:
            out.append("%s %s @ %s" % (e.kind, ", ".join(self.sh(x) for x in e.data), e.loc))
        return out

    def sh(self, v):
        if isinstance(v, (bytes, SBytes, Lin)):
            return show(self.ctx.renorm(v) if isinstance(v, SBytes) else v)
        if isinstance(v, (tuple, list)):
            return "[" + ", ".join(self.sh(x) for x in v) + "]"
        if isinstance(v, Obj):
            if "args" in v.d and v.cls.sub(self.I.exc["BaseException"]):
                return "%s(%s)" % (v.cls.name, ", ".join(self.sh(x) for x in (v.d["args"] if isinstance(v.d["args"], tuple) else ())))
            return repr(v)
        return str(v)[:200]

    # ------------------------------------------------------------ values
    def inp(self, name, n=None):
        return self.ctx.atom_bytes(("in", name, n))

    def sym(self, name, lo=None, hi=None):
        a = ("sym", name)
        self.ctx.bounds[a] = (lo, hi)
        return latom(a)

    def sl(self, v, lo, hi):
        """slice known to be in range"""
        return self.ctx.bslice(v, lin(lo), lin(hi))

    def cat(self, *vs):
        return self.ctx.cat(list(vs))

    def le(self, x, w):
        return self.ctx.le_bytes(lin(x), w)

    def same(self, a, b):
        """bytes equality; decided from the state or partitions the trace"""
        a, b = self.bts(a), self.bts(b)
        if a is None or b is None:
            return False
        return self.ctx.beq(a, b)

    def is_(self, a, b):
        """must-equality: known equal, without partitioning"""
        a, b = self.bts(a), self.bts(b)
        if a is None or b is None:
            return False
        return self.ctx.known_beq(a, b) is True

    def bts(self, v):
        if isinstance(v, (bytes, SBytes)):
            return self.ctx.renorm(v)
        if isinstance(v, bytearray):
            return bytes(v)
        if isinstance(v, (BArr, MView)):
            return self.ctx.renorm(self.I.tobytes(v))
        if isinstance(v, Top):
            raise Unsupported("unknown value where bytes are judged: " + v.why)
        return None

    def h512(self, m):
        return self.T.atom("sha512", self.ctx.renorm(m))

    def dhk(self, pk, sk):
        x, y = sorted([self.T.xpub(sk), self.ctx.renorm(pk)], key=repr)
        return self.T.atom("dh", x, y)

    def cls(self, mod, name):
        m = self.mod(mod)
        c = m.ns.get(name)
        if c is None:
            raise Missing("%s.%s" % (mod, name))
        return c

    def mod(self, name):
        try:
            return self.I.import_(name)
        except PyExc as e:
            if e.obj.cls.name == "ModuleNotFoundError" and self.I.mod_path(name) is None:
                raise Missing("module " + name)
            raise

    def new(self, mod, name, *a, **k):
        return self.I.call(self.cls(mod, name), list(a), k)

    def get(self, o, n):
        try:
            return self.I.getattr(o, n)
        except PyExc as e:
            if e.obj.cls.name == "AttributeError":
                raise Missing("attribute %s of %s" % (n, getattr(getattr(o, "cls", None), "name", o)))
            raise

    def set(self, o, n, v):
        self.I.setattr(o, n, v)

    def meth(self, o, n):
        return self.get(o, n)

    def run(self, o, n, *a, sync=False, **k):
        """call coroutine method n (or its _sync counterpart); -> ('ret', v) | ('exc', obj) | ('blocked', None)"""
        f = self.meth(o, n + "_sync" if sync else n)
        try:
            r = self.I.call(f, list(a), k)
            if not sync:
                r = self.I.models.in_loop(self.I.models.loop_obj(), r)
            return ("ret", r)
        except PyExc as e:
            return ("exc", self.I.fix_exc(e).obj)
        except Blocked:
            return ("blocked", None)

    def call(self, f, *a, **k):
        try:
            return ("ret", self.I.call(f, list(a), k))
        except PyExc as e:
            return ("exc", self.I.fix_exc(e).obj)

    def exc_is(self, o, name, mod="saltchannel.exceptions"):
        return o.cls.sub(self.cls(mod, name))

    def outcome(self, out):
        if out[0] == "exc":
            return self.sh(out[1])
        return out[0]

    def evs(self, *kinds):
        return [e for e in self.I.events[self.mark:] if e.kind in kinds]

    # ------------------------------------------------------------ environment objects
    def ncls(self, name, methods, base=None):
        I = self.I
        c = Cls(name, (base or I.B.OBJECT,), meta=base.meta if base is not None else I.B.TYPE, mod="env")
        for n, f in methods.items():
            c.ns[n] = f
        return c

    def keypair(self, sec, pub):
        return self.new("saltchannel.util.key_pair", "KeyPair", sec=sec, pub=pub)

    def sigkeys(self, who):
        seed = self.inp(who + "_sig_seed", 32)
        pk, sk = self.T.edkeys(seed)
        return self.keypair(sk, pk), seed, pk, sk

    def enckeys(self, who):
        sk = self.inp(who + "_enc_sec", 32)
        pk = self.T.xpub(sk)
        return self.keypair(sk, pk), sk, pk

    def keeper(self, who):
        return Keeper(self, who)

    def checker(self, who, refuse=False):
        return Checker(self, who, refuse)


def arg(v, I):
    if isinstance(v, BArr):
        return I.ctx.renorm(v.v)
    if isinstance(v, MView):
        return I.tobytes(v)
    if isinstance(v, SBytes):
        return I.ctx.renorm(v)
    return v


class Keeper:
    def __init__(self, R, who):
        self.R = R
        self.first, self.times = [], []

        cnt = [0]

        def mk(kind, lst):
            def f(I, a, k):
                if len(a) != 1 or k:
                    I.throw("TypeError", "bad arguments for " + kind)
                cnt[0] += 1
                n = cnt[0]
                v = R.sym("%s_time%d" % (who, n), 0, (1 << 32) - 1)
                e = I.event("time", who, kind, v)
                lst.append((v, e))
                return pyint(v)
            return NMeth(kind, f)
        c = R.ncls("EnvTimeKeeper", {"get_first_time": mk("get_first_time", self.first), "get_time": mk("get_time", self.times)})
        self.obj = Obj(c)


class Checker:
    """accepts everything, or (refuse) may refuse any time"""

    def __init__(self, R, who, refuse):
        self.R = R
        self.seen = []
        self.refused = []

        def mk(kind):
            def f(I, a, k):
                if len(a) != 2 and not (len(a) == 1 and "time" in k):
                    I.throw("TypeError", "bad arguments for " + kind)
                v = a[1] if len(a) == 2 else k["time"]
                e = I.event("timecheck", who, kind, v)
                self.seen.append((kind, v, e))
                if refuse and R.ctx.opaque(("refuses", who, len(self.seen)), "%s refuses time no. %d" % (who, len(self.seen))):
                    I.event("timerefused", who)
                    self.refused.append(e)
                    I.throw(R.cls("saltchannel.exceptions", "TimeException"), "refused")
                return None
            return NMeth(kind, f)
        c = R.ncls("EnvTimeChecker", {"report_first_time": mk("report_first_time"), "check_time": mk("check_time")})
        self.obj = Obj(c)


class Chan:
    """abstract ByteChannel given to the analysed classes. `source()` yields the next received message (host callable returning bytes,
    or raising Blocked); all writes are recorded as ('write', name, msgs, is_last)."""

    def __init__(self, R, name, source=None, wfail=False, rfail=False, on_write=None, suspends=False):
        self.R, self.name = R, name
        self.source = source
        self.writes = []         # (msgs, is_last, event)
        self.reads = []          # (value, event)
        self.on_write = on_write
        self.wfail, self.rfail = wfail, rfail
        self.raised = None
        self.failkind = None     # exception class of failing reads and writes
        self.ok = []
        I = R.I

        def read(I, a, k):
            if len(a) != 1 or k:
                I.throw("TypeError", "read() takes no arguments")
            if suspends:
                I.event("suspend", "channel read")
            if self.rfail and R.ctx.opaque(("readfails", name, len(self.reads)), "%s read fails" % name):
                I.event("readfail", name)
                self.raised = I.mkexc(self.failkind or R.cls("saltchannel.exceptions", "ComException"), "transport read failed")
                raise PyExc(self.raised)
            if self.source is None:
                I.event("blockedread", name)
                raise Blocked()
            v = self.source()
            e = I.event("read", name, v)
            self.reads.append((v, e))
            return v

        def write(I, a, k):
            k = dict(k)
            last = k.pop("is_last", False)
            if k or len(a) < 2:
                I.throw("TypeError", "write() got unexpected arguments")
            ms = []
            for m in a[1:]:
                if isinstance(m, tuple) and len(m) == 2 and m[0] == "*sym":
                    ms.append(("seq", m[1]))
                    continue
                b = R.bts(m)
                if b is None:
                    if isinstance(m, Top):
                        I.imprec("unknown message written")
                        raise Unsupported("unknown message written")
                    if m is None or isinstance(m, (int, Lin, float, str, SStr)):
                        I.throw("TypeError", "message is not bytes-like")
                    b = R.bts(I.tobytes(m))
                ms.append(b)
            lastv = last
            e = I.event("write", name, tuple(ms), lastv)
            self.writes.append((ms, lastv, e))
            if self.on_write is not None:
                self.on_write(self)
            if self.wfail and R.ctx.opaque(("writefails", name, len(self.writes)), "%s write fails" % name):
                I.event("writefail", name)
                self.raised = I.mkexc(self.failkind or R.cls("saltchannel.exceptions", "ComException"), "transport write failed")
                raise PyExc(self.raised)
            self.ok.append((ms, lastv, e))
            if suspends:
                I.event("suspend", "channel write")
            return None
        base = R.cls("saltchannel.channel", "ByteChannel")
        c = R.ncls("EnvChannel", {"read": ANat("read", read), "write": ANat("write", write), "read_sync": NMeth("read_sync", read),
                                  "write_sync": NMeth("write_sync", write), "close": NMeth("close", lambda I, a, k: I.event("close"))}, base)
        self.obj = Obj(c)
        self.obj.d["loop"] = I.models.loop_obj()

    def flat(self):
        return [(m, e) for ms, last, e in self.writes for m in ms]


def feed(R, prefix, limit=9):
    """source of arbitrary messages named prefix1, prefix2, ..."""
    st = [0]

    def src():
        st[0] += 1
        if st[0] > limit:
            R.I.event("blockedread", prefix)
            raise Blocked()
        return R.inp("%s%d" % (prefix, st[0]))
    return src


# ------------------------------------------------------------------ ideal back end in place of the concrete ones
def ideal_backend(R):
    I, T, ctx = R.I, R.T, R.ctx

    def exc(name):
        return R.cls("saltchannel.saltlib.exceptions", name)

    def b(v, what, n=None):
        if isinstance(v, Top):
            raise Unsupported("unknown argument to the back end")
        if isinstance(v, (BArr, MView)) or not isinstance(v, (bytes, SBytes)):
            I.throw("TypeError", "%s must be bytes" % what)
        v = ctx.renorm(v)
        if n is not None and not ctx.eq0(lsub(ctx.blen(v), n)):
            I.throw("ValueError", "bad length of " + what)
        return v

    def P(names, f):
        def g(I, a, k):
            a = list(a[1:])
            k = dict(k)
            for n in names[len(a):]:
                if n not in k:
                    I.throw("TypeError", "missing argument " + n)
                a.append(k.pop(n))
            if k or len(a) != len(names):
                I.throw("TypeError", "bad arguments")
            return f(*a)
        return g

    def sign_open(sm, pk):
        sm, pk = b(sm, "sm"), b(pk, "pk", 32)
        if not ctx.le(Lin(64), ctx.blen(sm)):
            I.throw(exc("BadSignatureException"))
        n = ctx.blen(sm)
        sig, m = ctx.bslice(sm, Lin(0), Lin(64)), ctx.bslice(sm, Lin(64), n)
        if not T.verify(sig, m, pk):
            I.throw(exc("BadSignatureException"))
        return m

    def beforenm(pk, sk):
        pk, sk = b(pk, "pk", 32), b(sk, "sk", 32)
        if T.low_order(pk):
            I.event("loworder", pk)
            I.throw("ValueError" if ctx.opaque(("valueerror", pk), "library raises ValueError") else "RuntimeError", "low order point")
        return T.dh(pk, sk)

    def open_(c, n, k):
        c, n, k = b(c, "c"), b(n, "n", 24), b(k, "k", 32)
        if not T.open_ok(c, n, k):
            I.throw(exc("BadEncryptedDataException"))
        return T.open(c, n, k)
    meths = {
        "crypto_sign": P(("m", "sk"), lambda m, sk: ctx.cat([T.sign(b(m, "m"), b(sk, "sk", 64)), b(m, "m")])),
        "crypto_sign_open": P(("sm", "pk"), sign_open),
        "crypto_box_beforenm": P(("pk", "sk"), beforenm),
        "crypto_box_afternm": P(("m", "n", "k"), lambda m, n, k: T.box(b(m, "m"), b(n, "n", 24), b(k, "k", 32))),
        "crypto_box_open_afternm": P(("c", "n", "k"), open_),
        "crypto_hash": P(("m",), lambda m: T.sha512(b(m, "m"))),
        "crypto_box_keypair_not_random": P(("sk",), lambda sk: (T.xpub(b(sk, "sk", 32)), sk)),
        "crypto_sign_keypair_not_random": P(("seed",), lambda s: T.edkeys(b(s, "seed", 32))),
        "randombytes": P(("n",), lambda n: T.random(n, "lib")),
    }

    def failing(name, f):
        def g(I, a, k):
            if not ctx.opaque(("libok", name, ctx.fresh("libok")), "%s succeeds" % name):
                I.event("libfail", name)
                I.throw("RuntimeError", "library failure")
            return f(I, a, k)
        return g
    if I.env.get("libfail"):
        for n in I.env["libfail"]:
            meths[n] = failing(n, meths[n])

    def hook(I, cls):
        if len(cls.mro) > 1 and any(c.name == "SaltLibBase" for c in cls.mro[1:]):
            for n, f in meths.items():
                if n in cls.ns:
                    cls.ns[n] = NMeth(n, f)
            av = R.cfg.get("avail")
            if "isAvailable" in cls.ns:
                if av is None:
                    cls.ns["isAvailable"] = SMeth(Nat("isAvailable", lambda I, a, k: True))
                else:
                    cls.ns["isAvailable"] = SMeth(Nat("isAvailable", lambda I, a, k, c=cls: av(c)))
            cls.ext.pop("abstract", None)
    I.class_hook = hook


# ------------------------------------------------------------------ exploration
def explore(name, fn, stats, env=None, K=None, max_traces=6000, budget=120.0, history=None):
    """enumerate all trace partitions of fn(R); returns findings"""
    findings = []
    seen = set()
    prefix = []
    t0 = time.time()
    n = 0
    dec = 0
    while True:
        n += 1
        R = Run(name, prefix, stats, env, K)
        R.history = history
        stats.traces += 1
        try:
            fn(R)
            stats.decided += 1
            dec += 1
        except Infeasible:
            stats.infeasible += 1
            R.findings = []
        except Cut as e:
            stats.cuts += 1
            stats.note("cut: %s at %s" % (e, R.lastloc()))
        except Unsupported as e:
            stats.undecided += 1
            stats.note("unsupported: %s at %s" % (e, R.lastloc()))
        except Blocked:
            stats.blocked += 1
            stats.decided += 1
            dec += 1
        except PyExc as e:
            o = R.I.fix_exc(e).obj
            stats.undecided += 1
            stats.note("scenario setup raised %s at %s" % (R.sh(o), R.lastloc()))
        finally:
            R.I.close()
        stats.obligations += R.obl
        stats.steps += R.I.steps
        stats.funcs |= R.I.funcs_seen
        if len(stats.samples) < 12 and R.obl and n in (1, 2, 5):
            stats.samples.append({"scenario": name, "decisions": [l for l in R.ctx.labels][:12], "effects": R.show_trace()[-8:]})
        for f in R.findings:
            if f.key() not in seen:
                seen.add(f.key())
                findings.append(f)
        t = R.ctx.taken
        i = len(t) - 1
        while i >= 0 and t[i][0] >= t[i][1] - 1:
            i -= 1
        if i < 0:
            break
        prefix = [c for c, _ in t[:i]] + [t[i][0] + 1]
        if n >= max_traces or time.time() - t0 > budget:
            stats.truncated.append(name)
            break
        if len(findings) >= 5:
            break
    stats.scen[name] = stats.scen.get(name, 0) + n
    if not dec and not findings:
        raise NoAnswer(name)
    return findings


class NoAnswer(Exception):
    pass


def big_stack(fn):
    res = []

    def run():
        try:
            res.append(("ok", fn()))
        except BaseException as e:
            import traceback
            if os.environ.get("SALT_DEBUG"):
                traceback.print_exc(limit=-12)
            res.append(("exc", e))
    sys.setrecursionlimit(100000)
    old = threading.stack_size(1024 * 1024 * 1024 - 4096 * 16)
    t = threading.Thread(target=run)
    t.start()
    threading.stack_size(64 * 1024 * 1024)
    t.join()
    if res[0][0] == "exc":
        raise res[0][1]
    return res[0][1]
