"""Rules C01-C12: sessions, encrypted channel, application channel."""
import ast
import os

from .sessions import *

SIG1, SIG2 = b"SC-SIG01", b"SC-SIG02"


class Scn:
    def __init__(self, name, fn, env=None, K=None, max_traces=6000, budget=150.0, history=None):
        self.name, self.fn, self.env, self.K, self.max_traces, self.budget = name, fn, env or {}, K, max_traces, budget
        self.history = history


def handshake(R, P, sync):
    """the judged handshake call; with the history 'retry' an earlier call on the same session object has failed, with 'reuse' one has succeeded"""
    if getattr(R, "retry", None):
        again, R.retry = R.retry, None
        earlier(R, P, sync, again)
        over(R, P)
    return R.run(P.s, "handshake", sync=sync)


def earlier(R, P, sync, again):
    """an earlier handshake call on the session object"""
    src = P.chan.source
    if again == "refused":
        P.reused = False
        named = R.inp("retry_named_key", 32)
        if P.role == "server" and R.ctx.beq(named, P.sigpub):
            raise Infeasible()
        m = R.cat(b"\x02\x81", bytes(36)) if P.role == "client" else R.cat(b"SCv2\x01\x01", bytes(4), R.inp("retry_m1_key", 32), named)
        P.chan.source = lambda: m
        if R.run(P.s, "handshake", sync=sync)[0] == "ret":
            raise Infeasible()
    elif again == "query":
        if P.role == "client":
            raise Infeasible()
        P.reused = True
        m = b"\x08\0\0\0\0" if R.ctx.opaque(("query", "address"), "the earlier query names no address") else R.cat(b"\x08\0\x01\x20\0", R.inp("query_address", 32))
        P.chan.source = lambda: m
        if R.run(P.s, "handshake", sync=sync)[0] != "ret":
            raise Infeasible()
    else:
        P.reused = again == "reuse"
        st = [0]
        m2 = R.cat(b"\x02\x00", bytes(4), R.inp("retry_m2_key", 32))
        m1 = R.cat(b"SCv2\x01\x00", bytes(4), R.inp("retry_m1_key", 32))
        key = R.dhk(R.inp("retry_m2_key" if P.role == "client" else "retry_m1_key", 32), P.encsec)

        def first():
            st[0] += 1
            if st[0] == 1:
                return m2 if P.role == "client" else m1
            t, n = (b"\x03", 2) if P.role == "client" else (b"\x04", 1)
            if P.reused:
                who = P.pinkey if P.role == "client" and P.pinkey is not None else R.inp("retry_peer_key", 32)
                return R.cat(b"\x06\x00", R.T.box(R.cat(t, bytes(5), who, R.inp("retry_signature", 64)), nonce(R, n), key))
            return R.cat(b"\x06\x00", R.T.box(R.cat(t, R.inp("retry_forged", 101)), nonce(R, n), key))
        P.chan.source = first
        P.chan.rfail = not P.reused
        if (R.run(P.s, "handshake", sync=sync)[0] == "ret") != P.reused:
            raise Infeasible()
    P.chan.source, P.chan.rfail = src, False


def over(R, P):
    """what happened so far is history"""
    del P.chan.writes[:], P.chan.reads[:], P.chan.ok[:]
    if P.keeper is not None:
        del P.keeper.first[:], P.keeper.times[:], P.checker.seen[:], P.checker.refused[:]
    R.mark = len(R.I.events)
    P.old, P.oldenc = R.get(P.s, "app_channel"), R.get(P.s, "enc_channel")


def newchan(R, P):
    """the application channel this handshake led to (None: none; one left over from an earlier call does not count)"""
    c = R.get(P.s, "app_channel")
    return None if c is None or c is getattr(P, "old", None) else c


HIST = {"query": "when an earlier call on the same session answered a query", "loop": "when the session is given an event loop", "refused": "when an earlier call on the same session met the no-such-server answer",
        "reuse": "when an earlier call on the same session has succeeded", "retry": "when an earlier call on the same session has failed", "same": "after an honest session with the same keys", "other": "after an honest session of other parties", "pending": "while a session of other parties is under way", "failed": "after a failed session",
        "hostile": "after a session with an arbitrary peer"}


def hist(scns, tier, pats, kinds=None):
    """scenarios whose name contains one of pats, after the histories of this tier"""
    return again([s for s in scns if any(p in s.name for p in pats)] if tier != "thorough" else [s for s in scns if "sync=yes" not in s.name],
                 kinds or (("same", "other", "failed", "retry", "reuse", "refused", "query", "loop") if tier != "thorough" else ("same", "other", "failed", "retry", "reuse", "refused", "query", "loop", "hostile")))


def again(scns, kinds=("same", "other", "failed")):
    """the scenarios once more, in a process that has a history"""
    return [Scn("%s, %s" % (s.name, HIST[h]), s.fn, s.env, s.K, s.max_traces, s.budget, h) for s in scns for h in kinds
            if h != "query" or "server" in s.name or "M2" in s.name and "M4" not in s.name]


def yn(b):
    return "yes" if b else "no"


# ------------------------------------------------------------------ specification predicates (partition the trace when open)
def valid_m1(R, m):
    ctx = R.ctx
    n = ctx.blen(m)
    if not ctx.le(Lin(42), n):
        return None
    if not R.same(R.sl(m, 0, 4), b"SCv2") or not R.same(R.sl(m, 4, 5), b"\x01"):
        return None
    f = ctx.eq0(lsub(lin(ctx.getbits(R.sl(m, 5, 6), 0, 1)), 1))
    if not ctx.eq0(lsub(n, 74 if f else 42)):
        return None
    return {"flag": f, "enc": R.sl(m, 10, 42), "key": R.sl(m, 42, 74) if f else None, "time": R.sl(m, 6, 10)}


def valid_m2(R, m):
    ctx = R.ctx
    if not ctx.eq0(lsub(ctx.blen(m), 38)) or not R.same(R.sl(m, 0, 1), b"\x02"):
        return None
    return {"nosuch": ctx.eq0(lsub(lin(ctx.getbits(R.sl(m, 1, 2), 0, 1)), 1)), "enc": R.sl(m, 6, 38), "time": R.sl(m, 2, 6)}


def valid_a1(R, m):
    ctx = R.ctx
    n = ctx.blen(m)
    if not ctx.le(Lin(5), n) or not R.same(R.sl(m, 0, 1), b"\x08"):
        return None
    size = lin(ctx.dec(R.sl(m, 3, 5)))
    ty = lin(ctx.dec(R.sl(m, 2, 3)))
    if not ctx.eq0(lsub(ladd(size, 5), n)):
        return None
    if ctx.eq0(ty):
        return {"type": 0} if ctx.eq0(size) else None
    if not ctx.eq0(lsub(ty, 1)) or not ctx.eq0(lsub(size, 32)):
        return None
    return {"type": 1, "addr": R.sl(m, 5, 37)}


def kind(R, m):
    """classify a message given to the clear channel"""
    ctx = R.ctx
    if isinstance(m, tuple):
        return ("seq", m)
    if R.is_prefix(m, b"SCv2\x01"):
        return ("M1", m)
    if R.is_prefix(m, b"\x02"):
        return ("M2", m)
    if R.is_prefix(m, b"\x09"):
        return ("A2", m)
    e = parse_enc(R, m)
    if e is not None:
        b = as_box(R, e[1])
        if b is not None:
            p = b[0]
            t = "?"
            for c, nm in ((b"\x03", "M3"), (b"\x04", "M4"), (b"\x05", "App"), (b"\x0b", "MultiApp")):
                if R.is_prefix(p, c):
                    t = nm
            return ("enc", m, t, p, b[1], b[2], e[0])
    return ("other", m)


def is_prefix(R, m, pre):
    if R.ctx.known_le0(lsub(Lin(len(pre)), R.ctx.blen(m))) is not True:
        return False
    return R.is_(R.sl(m, 0, len(pre)), pre)


Run.is_prefix = is_prefix


def name_of(k):
    return k[2] if k[0] == "enc" else k[0]


# ------------------------------------------------------------------ C01 / C02
def opened_before(R, ev):
    """plaintexts successfully opened before event ev"""
    return [R.T.open(e.data[1], e.data[2], e.data[3]) for e in R.evs("open") if e.data[0] and e.n < ev.n]


def good_verification(R, P, prefix, m1, m2, key_lo=6):
    """the verify events that prove the peer of this transcript"""
    out = []
    want = R.cat(prefix, R.h512(m1), R.h512(m2))
    for e in R.evs("verify"):
        ok, sig, m, pk = e.data
        if ok and R.is_(m, want):
            for p in opened_before(R, e):
                if R.ctx.known_le0(lsub(Lin(key_lo + 32), R.ctx.blen(p))) is True and R.is_(R.sl(p, key_lo, key_lo + 32), pk):
                    out.append((e, pk))
                    break
    return out


def c01(R, sync, pin, buf, real=None):
    if real is None:
        setup(R)
    P = mk_client(R, sync=sync, pin=pin, buf=buf)
    out = handshake(R, P, sync)
    w = P.chan.flat()
    rx = [v for v, _ in P.chan.reads]
    good = good_verification(R, P, SIG1, w[0][0], rx[0]) if w and rx else []
    first = good[0][0].n if good else None
    if out[0] == "ret":
        R.check(bool(good), "client-return-without-proof",
                lambda: "handshake() returns normally although no signature by the key in M3 was verified over SC-SIG01||H(M1)||H(M2)")
    for m, e in w[1:]:
        R.check(first is not None and first < e.n, "client-sends-before-proof",
                lambda: "client writes %s before the server's signature has been verified" % R.sh(m), e)
    if w:
        R.check(len(P.chan.writes[0][0]) == 1 and (not rx or P.chan.writes[0][2].n < P.chan.reads[0][1].n), "client-first-write",
                "M1 is not the single message of the first write", w[0][1])


def c01_scenarios(tier):
    r = []
    for sync in (False, True):
        for pin in (False, True):
            for buf in (False, True):
                r.append(Scn("client handshake, arbitrary replies (sync=%s pin=%s bufferM4=%s)" % (yn(sync), yn(pin), yn(buf)),
                             lambda R, s=sync, p=pin, b=buf: c01(R, s, p, b)))
    for pin in (False, True):
        r.append(Scn("client handshake, failing crypto library (pin=%s)" % yn(pin), lambda R, p=pin: c01(R, False, p, False), env={"libfail": LIBFAIL}))
    for be in BACKENDS:
        r.append(Scn("client handshake over back end %s" % be[0], lambda R: c01(R, False, False, False, True), env=be[1]))
    return r + hist(r, tier, ("(sync=no pin=no bufferM4=no)", "(sync=no pin=yes bufferM4=yes)", "back end"))


BACKENDS = (("native", {"cells": True}), ("pynacl", {"sodium": "none"}),)


def c02(R, sync, buf, real=None):
    if real is None:
        setup(R)
    P = mk_server(R, sync=sync, buf=buf)
    out = handshake(R, P, sync)
    w = P.chan.flat()
    rx = [v for v, _ in P.chan.reads]
    m2 = [m for m, _ in w if kind(R, m)[0] == "M2"]
    good = good_verification(R, P, SIG2, rx[0], m2[0]) if m2 and rx else []
    key = R.get(P.s, "client_sig_key")
    ch = newchan(R, P)
    if out[0] == "ret":
        if ch is not None or m2:
            R.check(bool(good), "server-return-without-proof",
                    "handshake() returns normally although no signature by the key in M4 was verified over SC-SIG02||H(M1)||H(M2)")
            R.check(any(R.is_(key, pk) for _, pk in good), "server-client-identity",
                    lambda: "client_sig_key is %s, not the verified key" % R.sh(key))
        elif not getattr(P, "reused", False):
            R.check(not key, "server-identity-without-handshake", lambda: "client_sig_key is %s although there was no handshake" % R.sh(key))
    elif getattr(P, "reused", False):
        pass        # what the session reports then is not specified: it still knows the identity of its earlier handshake
    elif out[0] == "exc":
        R.check(key is None or key == b"", "server-identity-after-failure",
                lambda: "handshake() raises %s but client_sig_key is %s" % (R.outcome(out), R.sh(key)))
    else:
        R.check(key is None or key == b"", "server-identity-too-early", lambda: "client_sig_key is %s before the client is verified" % R.sh(key))


def c02_scenarios(tier):
    r = []
    for sync in (False, True):
        for buf in (False, True):
            r.append(Scn("server handshake, arbitrary messages (sync=%s bufferM2=%s)" % (yn(sync), yn(buf)),
                         lambda R, s=sync, b=buf: c02(R, s, b)))
    r.append(Scn("server handshake, failing crypto library", lambda R: c02(R, False, False), env={"libfail": LIBFAIL}))
    for be in BACKENDS:
        r.append(Scn("server handshake over back end %s" % be[0], lambda R: c02(R, False, False, True), env=be[1]))
    return r + hist(r, tier, ("(sync=no bufferM2=no)", "back end"))


# ------------------------------------------------------------------ C03
def c03(R, sync, pin, buf):
    setup(R)
    P = mk_client(R, sync=sync, pin=pin, buf=buf)
    out = handshake(R, P, sync)
    w = P.chan.flat()
    if not w and R.evs("libfail"):
        return
    if not R.check(bool(w), "m1-missing", lambda: "no M1 is sent (%s)" % R.outcome(out)):
        return
    m1 = w[0][0]
    n = 74 if pin else 42
    if not R.check(R.ctx.known_eq0(lsub(R.ctx.blen(m1), n)) is True, "m1-size", lambda: "M1 is %s, expected %d bytes" % (R.sh(m1), n), w[0][1]):
        return
    R.check(R.ctx.known_eq0(lsub(lin(R.ctx.getbits(R.sl(m1, 5, 6), 0, 1)), 1 if pin else 0)) is True, "m1-flag",
            lambda: "M1 flags %s do not match whether a server key is named" % R.sh(R.sl(m1, 5, 6)), w[0][1])
    if not pin:
        return
    R.check(R.is_(R.sl(m1, 42, 74), P.pinkey), "m1-key", lambda: "M1 carries %s instead of the named server key" % R.sh(R.sl(m1, 42, 74)), w[0][1])
    good = good_verification(R, P, SIG1, m1, P.chan.reads[0][0]) if P.chan.reads else []
    match = [(e, pk) for e, pk in good if R.is_(pk, P.pinkey)]
    if out[0] == "ret":
        R.check(bool(match), "pin-not-enforced", "handshake() returns although the key proved in M3 need not be the named one")
    for m, e in w[1:]:
        R.check(bool(match), "pin-sent-before-check", lambda: "client writes %s although the key proved in M3 need not be the named one" % R.sh(m), e)
    if good and not match and out[0] == "exc":
        R.check(R.exc_is(out[1], "BadPeer"), "pin-error-kind", lambda: "a different server key leads to %s instead of BadPeer" % R.outcome(out))


def c03_scenarios(tier):
    r = [Scn("client handshake, arbitrary replies (sync=%s pin=%s bufferM4=%s)" % (yn(s), yn(p), yn(b)), lambda R, s=s, p=p, b=b: c03(R, s, p, b))
         for p in (True, False) for s in (False, True) for b in (False, True)]
    r.append(Scn("client handshake, failing crypto library (pin=yes)", lambda R: c03(R, False, True, False), env={"libfail": LIBFAIL}))
    return r + hist(r, tier, ("(sync=no pin=yes bufferM4=no)", "(sync=no pin=no bufferM4=no)"))


# ------------------------------------------------------------------ C04
def c04_server(R, sync, buf, null_time):
    setup(R)
    P = mk_server(R, sync=sync, buf=buf, null_time=null_time)
    out = handshake(R, P, sync)
    if not P.chan.reads:
        R.check(out[0] == "exc", "server-no-read", "the server never reads M1")
        return
    v = valid_m1(R, P.chan.reads[0][0])
    refuse = v is not None and v["flag"] and not R.same(v["key"], P.sigpub)
    w = P.chan.flat()
    def flagged(m):
        return R.is_prefix(m, b"\x02") and R.ctx.known_eq0(lin(R.ctx.getbits(R.sl(m, 1, 2), 0, 1))) is not True
    if refuse:
        if null_time and out[0] == "exc" and R.exc_is(out[1], "BadPeer") and not w:
            return      # the time check of M1 may come first
        R.check(out[0] == "exc" and R.exc_is(out[1], "NoSuchServerException"), "nosuch-not-raised",
                lambda: "an M1 naming another key leads to %s" % R.outcome(out))
        ok = len(w) == 1 and R.is_prefix(w[0][0], b"\x02")
        if R.check(ok, "nosuch-answer", lambda: "an M1 naming another key is answered by %s" % [R.sh(m) for m, _ in w]):
            m, e = w[0]
            R.check(R.ctx.known_eq0(lsub(R.ctx.blen(m), 38)) is True and R.is_(R.sl(m, 1, 2), b"\x81"), "nosuch-flags",
                    lambda: "the refusing M2 is %s: flags must be NoSuchServer and Last" % R.sh(m), e)
            R.check(R.is_(R.sl(m, 6, 38), bytes(32)), "nosuch-key", lambda: "the refusing M2 carries %s in its key field" % R.sh(R.sl(m, 6, 38)), e)
            R.check(len(P.chan.writes) == 1 and P.chan.writes[0][1] is True, "nosuch-last", "the refusing M2 is not written as last", e)
    else:
        R.check(not (out[0] == "exc" and R.exc_is(out[1], "NoSuchServerException")), "nosuch-wrongly-raised",
                "a message that names no other key is refused as no-such-server")
        for m, e in w:
            R.check(not flagged(m), "nosuch-wrongly-answered", lambda: "M2 %s flags no-such-server for an M1 naming this server or none" % R.sh(m), e)


def c04_client(R, sync, pin, buf, null_time):
    setup(R)
    P = mk_client(R, sync=sync, pin=pin, buf=buf, null_time=null_time)
    out = handshake(R, P, sync)
    if not P.chan.reads:
        R.check(out[0] == "exc", "client-no-read", "the client never reads M2")
        return
    v = valid_m2(R, P.chan.reads[0][0])
    if v is not None and v["nosuch"]:
        if not (null_time and out[0] == "exc" and R.exc_is(out[1], "BadPeer")):
            R.check(out[0] == "exc" and R.exc_is(out[1], "NoSuchServerException"), "client-nosuch-not-raised",
                    lambda: "an M2 flagged no-such-server leads to %s" % R.outcome(out))
        R.check(len(P.chan.flat()) == 1, "client-nosuch-sends", "the client sends more after an M2 flagged no-such-server",
                P.chan.writes[-1][2])
    else:
        R.check(not (out[0] == "exc" and R.exc_is(out[1], "NoSuchServerException")), "client-nosuch-wrongly-raised",
                "NoSuchServerException without a no-such-server M2")


def c04_scenarios(tier):
    r = []
    for s in (False, True):
        for b in (False, True):
            r.append(Scn("server, arbitrary M1 (sync=%s bufferM2=%s)" % (yn(s), yn(b)), lambda R, s=s, b=b: c04_server(R, s, b, False)))
            for p in (False, True):
                r.append(Scn("client, arbitrary M2 (sync=%s pin=%s bufferM4=%s)" % (yn(s), yn(p), yn(b)), lambda R, s=s, b=b, p=p: c04_client(R, s, p, b, False)))
    r.append(Scn("server, arbitrary M1 (default time)", lambda R: c04_server(R, False, False, True)))
    r.append(Scn("client, arbitrary M2 (default time)", lambda R: c04_client(R, False, True, False, True)))
    return r + hist(r, tier, ("server, arbitrary M1 (sync=no bufferM2=no)", "client, arbitrary M2 (sync=no pin=yes bufferM4=no)"))


# ------------------------------------------------------------------ C05
def check_m3(R, P, plain, m1, m2, ev):
    want = R.cat(R.sl(plain, 0, 6), P.sigpub, R.T.atom("sig", R.cat(SIG1, R.h512(m1), R.h512(m2)), P.sigsec)) \
        if R.ctx.known_eq0(lsub(R.ctx.blen(plain), 102)) is True else None
    R.check(want is not None and R.is_(plain, want), "m3-content",
            lambda: "M3 is %s; expected header, time, own public key and the signature over SC-SIG01||H(M1)||H(M2) as on the wire" % R.sh(plain), ev)


def check_m4(R, P, plain, m1, m2, ev):
    want = R.cat(R.sl(plain, 0, 6), P.sigpub, R.T.atom("sig", R.cat(SIG2, R.h512(m1), R.h512(m2)), P.sigsec)) \
        if R.ctx.known_eq0(lsub(R.ctx.blen(plain), 102)) is True else None
    R.check(want is not None and R.is_(plain, want), "m4-content",
            lambda: "M4 is %s; expected header, time, own public key and the signature over SC-SIG02||H(M1)||H(M2) as on the wire" % R.sh(plain), ev)


def c05_server(R, sync, buf):
    setup(R)
    P = mk_server(R, sync=sync, buf=buf)
    handshake(R, P, sync)
    w = P.chan.flat()
    ks = [(kind(R, m), e) for m, e in w]
    m2 = [k[1] for k, _ in ks if k[0] == "M2"]
    for k, e in ks:
        if k[0] == "enc" and k[2] == "M3":
            if R.check(len(m2) == 1, "m3-without-m2", "M3 is sent without exactly one M2", e):
                check_m3(R, P, k[3], P.chan.reads[0][0], m2[0], e)
        elif k[0] in ("enc", "other"):
            R.check(False, "server-unknown-message", lambda: "server sends %s during the handshake" % R.sh(k[1]), e)


def c05_client(R, sync, pin, buf):
    setup(R)
    P = mk_client(R, sync=sync, pin=pin, buf=buf)
    out = handshake(R, P, sync)
    if out[0] == "ret" and buf:
        out = R.run(app(R, P), "write", R.inp("msg"), sync=sync)
    w = P.chan.flat()
    for m, e in w:
        k = kind(R, m)
        if k[0] == "enc" and k[2] == "M4":
            check_m4(R, P, k[3], w[0][0], P.chan.reads[0][0], e)
        elif k[0] == "other" or k[0] == "enc" and k[2] in ("M3", "?"):
            R.check(False, "client-unknown-message", lambda: "client sends %s during the handshake" % R.sh(k[1]), e)


def honest(R, cs, ss, pin, bufc, bufs, null_time, extra=None, nmsg=0):
    """honest client and server on one wire; returns (W, C, S, outcomes)"""
    setup(R)
    W = Wire(R)
    cc, sc = W.end("client", "server"), W.end("server", "client")
    S = mk_server(R, sync=ss, buf=bufs, chan=sc, null_time=null_time)
    C = mk_client(R, sync=cs, pin=S.sigpub if pin else False, buf=bufc, chan=cc, null_time=null_time)

    def client():
        o = R.run(C.s, "handshake", sync=cs)
        if o[0] == "ret" and bufc:
            o2 = R.run(app(R, C), "write", R.inp("msg"), sync=cs)
            if o2[0] != "ret":
                return o2
        return o

    def server():
        return R.run(S.s, "handshake", sync=ss)
    if getattr(R, "retry", None):
        again, R.retry = R.retry, None
        if again == "reuse":
            res = W.run({"client": client, "server": server})
            if any(res.get(p, ("",))[0] != "ret" for p in ("client", "server")):
                raise Infeasible()
        else:
            earlier(R, S, ss, again)
            if again != "query":
                earlier(R, C, cs, again)
        for P in (S, C):
            over(R, P)
        W.q["client"][:], W.q["server"][:] = [], []
        W.gen.clear()
        R.I.models.running = []
    res = W.run({"client": client, "server": server})
    return W, C, S, res


def c05_honest(R, cs, ss, pin, bufc, bufs, null_time):
    W, C, S, res = honest(R, cs, ss, pin, bufc, bufs, null_time)
    for p in ("client", "server"):
        o = res.get(p, ("blocked", None))
        R.check(o[0] == "ret", "honest-%s-fails" % p, lambda: "handshake between honest peers: the %s ends with %s" % (p, R.outcome(o)))
    if all(res.get(p, ("",))[0] == "ret" for p in ("client", "server")):
        R.check(R.is_(R.get(S.s, "client_sig_key"), C.sigpub), "honest-identity", "the server does not report the honest client's key")
    cw, sw = W.chan["client"].flat(), W.chan["server"].flat()
    ks = [(kind(R, m), e) for m, e in sw]
    m2 = [k[1] for k, _ in ks if k[0] == "M2"]
    for k, e in ks:
        if k[0] == "enc" and k[2] == "M3" and m2:
            check_m3(R, S, k[3], cw[0][0], m2[0], e)
    for m, e in cw:
        k = kind(R, m)
        if k[0] == "enc" and k[2] == "M4" and m2:
            check_m4(R, C, k[3], cw[0][0], m2[0], e)


def c05_scenarios(tier):
    r = []
    for b in (False, True):
        for s in (False, True):
            r.append(Scn("server M3, arbitrary M1 (sync=%s bufferM2=%s)" % (yn(s), yn(b)), lambda R, s=s, b=b: c05_server(R, s, b)))
            r.append(Scn("client M4, arbitrary replies (sync=%s bufferM4=%s)" % (yn(s), yn(b)), lambda R, s=s, b=b: c05_client(R, s, b, b)))
    for pin in (False, True):
        for bc in (False, True):
            for bs in (False, True):
                for nt in (False, True):
                    for s in (False, True):
                        r.append(Scn("honest peers (pin=%s bufferM4=%s bufferM2=%s default-time=%s sync=%s)" % (yn(pin), yn(bc), yn(bs), yn(nt), yn(s)),
                                     lambda R, a=(s, s, pin, bc, bs, nt): c05_honest(R, *a)))
    return r + hist(r, tier, ("(sync=no bufferM2=no)", "(sync=no bufferM4=no)", "bufferM4=yes bufferM2=yes default-time=no sync=no", "bufferM4=no bufferM2=no default-time=yes sync=no"))


# ------------------------------------------------------------------ C06
def exercise(R, P, sync, writes=(1,), reads=0):
    a = app(R, P)
    for i, n in enumerate(writes):
        R.run(a, "write", *[R.inp("msg%d_%d" % (i, j)) for j in range(n)], sync=sync)
    for i in range(reads):
        R.run(a, "read", sync=sync)


def c06(R, role, sync, buf, what="write"):
    setup(R)
    P = mk_client(R, sync=sync, buf=buf) if role == "client" else mk_server(R, sync=sync, buf=buf)
    out = handshake(R, P, sync)
    if out[0] == "ret" and newchan(R, P) is not None:
        exercise(R, P, sync, (1, 2) if what == "write" else (), 1 if what == "read" else 0)
    rx = [v for v, _ in P.chan.reads]
    for m, e in P.chan.flat():
        k = kind(R, m)
        if k[0] == "M1":
            R.check(R.ctx.known_le0(lsub(Lin(42), R.ctx.blen(m))) is True and R.is_(R.sl(m, 10, 42), P.encpub), "m1-ephemeral",
                    lambda: "M1 %s does not carry the own ephemeral public key" % R.sh(m), e)
        elif k[0] == "M2" and not R.is_(R.sl(m, 1, 2), b"\x81"):
            R.check(R.ctx.known_le0(lsub(Lin(38), R.ctx.blen(m))) is True and R.is_(R.sl(m, 6, 38), P.encpub), "m2-ephemeral",
                    lambda: "M2 %s does not carry the own ephemeral public key" % R.sh(m), e)
    for e in R.evs("box", "open"):
        k = e.data[2] if e.kind == "box" else e.data[3]
        if not rx:
            R.check(False, "key-without-peer", "a message is encrypted before the peer's ephemeral key was received", e)
            continue
        lo = 6 if role == "client" else 10
        ok = R.ctx.known_le0(lsub(Lin(lo + 32), R.ctx.blen(rx[0]))) is True
        R.check(ok and R.is_(k, R.dhk(R.sl(rx[0], lo, lo + 32), P.encsec)), "session-key",
                lambda: "the key %s is not the agreement of the own ephemeral secret with the peer's ephemeral key" % R.sh(k), e)


def c06_scenarios(tier):
    r = [Scn("%s session, arbitrary peer (sync=%s buffering=%s)" % (ro, yn(s), yn(b)), lambda R, a=(ro, s, b): c06(R, *a), max_traces=4000)
         for ro in ("client", "server") for s in (False, True) for b in (False, True)]
    for ro in ("client", "server"):
        r.append(Scn("%s session, arbitrary peer, reading" % ro, lambda R, a=(ro, False, False, "read"): c06(R, *a), max_traces=4000))
    for bs in (False, True):
        r.append(Scn("honest peers use one key (buffering=%s)" % yn(bs), lambda R, b=bs: c06_honest(R, b)))
    return r + hist(r, tier, ("(sync=no buffering=no)", "honest peers use one key (buffering=no)"))


def c06_honest(R, buf):
    W, C, S, res = honest(R, False, False, False, buf, buf, False)
    want = R.dhk(S.encpub, C.encsec)
    for e in R.evs("box", "open"):
        k = e.data[2] if e.kind == "box" else e.data[3]
        R.check(R.is_(k, want), "honest-session-key", lambda: "honest peers use %s as session key" % R.sh(k), e)
    R.check(bool(R.evs("box")), "honest-no-encryption", "honest peers exchange no encrypted message")


# ------------------------------------------------------------------ C07
ROLE0 = {"client": 1, "server": 2}


def check_nonces(R, role, session=bytes(8), start=0, evs=None):
    for i, e in enumerate(evs if evs is not None else R.evs("box")):
        n = ROLE0[role] + 2 * (start + i)
        R.check(R.is_(e.data[1], nonce(R, n, session)), "write-nonce",
                lambda: "encrypted message no. %d of the %s uses nonce %s, expected counter %d" % (start + i + 1, role, R.sh(e.data[1]), n), e)


def wire_nonces(R, role, flat, session=bytes(8)):
    """the encrypted packets handed to the transport, one after the other, carry the nonces 1, 3, 5, ... or 2, 4, 6, ..."""
    i = 0
    for m, e in flat:
        k = kind(R, m)
        if k[0] == "enc":
            n = ROLE0[role] + 2 * i
            R.check(R.is_(k[4], nonce(R, n, session)), "wire-nonce",
                    lambda: "the %s's encrypted packet no. %d on the wire was made with nonce %s, expected counter %d" % (role, i + 1, R.sh(k[4]), n), e)
            i += 1


def role_obj(R, role):
    return R.get(R.cls("saltchannel.v2.encrypted_channel_v2", "Role"), role.upper())


def c07_interrupted(R, role, sync, buf):
    """a write of the handshake fails or another task writes while it is in progress: what is encrypted next on the session's channel gets the next nonce"""
    setup(R)
    P = mk_client(R, sync=sync, buf=buf, wfail=True) if role == "client" else mk_server(R, sync=sync, buf=buf, wfail=True)
    out = handshake(R, P, sync)
    ecs = [v for v in P.s.d.values() if isinstance(v, Obj) and v.cls.name == "EncryptedChannelV2"]
    if out[0] == "exc" and R.evs("writefail"):
        P.chan.wfail = False
        for ec in ecs:
            R.run(ec, "write", R.inp("later"), sync=sync)
    check_nonces(R, role)


def c07_session(R, role, sync, buf, wfail, writes):
    setup(R)
    P = mk_client(R, sync=sync, buf=buf) if role == "client" else mk_server(R, sync=sync, buf=buf)
    out = handshake(R, P, sync)
    if out[0] == "ret" and newchan(R, P) is not None:
        P.chan.wfail = wfail
        exercise(R, P, sync, writes, 0)
    check_nonces(R, role)
    wire_nonces(R, role, P.chan.flat())


def enc_channel(R, role, chan, key=None, session=None, loop=None):
    key = key if key is not None else R.inp("key", 32)
    a = [chan.obj, key, role_obj(R, role)]
    if session is not None:
        a.append(session)
    k = {} if loop is None else {"loop": loop}
    return R.new("saltchannel.v2.encrypted_channel_v2", "EncryptedChannelV2", *a, **k)


def int_state(root):
    """integer fields of the object graph below root: {path: (container, key, value)}"""
    out = {}
    seen = set()

    def go(v, path, put, d):
        if isinstance(v, bool) or d > 6:
            return
        if isinstance(v, (int, Lin)):
            out[path] = (put, v)
            return
        if id(v) in seen:
            return
        if isinstance(v, Obj):
            seen.add(id(v))
            if v.cls.mod == "env" or v.cls.ext.get("enum"):
                return
            for k, x in list(v.d.items()):
                go(x, path + (k,), (lambda n, dd=v.d, k=k: dd.__setitem__(k, n)), d + 1)
        elif isinstance(v, list):
            seen.add(id(v))
            for i, x in enumerate(v[:20]):
                go(x, path + (i,), (lambda n, dd=v, i=i: dd.__setitem__(i, n)), d + 1)
        elif isinstance(v, dict):
            seen.add(id(v))
            for k, x in list(v.items())[:20]:
                go(x, path + (str(k),), (lambda n, dd=v, k=k: dd.__setitem__(k, n)), d + 1)
    go(root, (), None, 0)
    return out


def widen(R, root, states):
    """replace integer state that moved by the same step in the recorded states by its generalisation v + step*K"""
    a, b, c = states
    K = None
    n = 0
    for p, (put, v) in c.items():
        if p in a and p in b and put is not None:
            x, y, z = lin(a[p][1]), lin(b[p][1]), lin(v)
            d1, d2 = R.ctx.norm(lsub(y, x)), R.ctx.norm(lsub(z, y))
            if d1 == d2 and not d1.t and d1.c != 0:
                if K is None:
                    K = R.sym("K", 0, 1 << 61)
                put(pyint(ladd(z, lmul(K, d1.c))))
                n += 1
    return K


FAILKINDS = ("OSError", "EOFError", "ValueError", "TypeError", "CancelledError")


def failkind(R, ch, name):
    """the transport fails with this kind of exception instead of the library's own"""
    if isinstance(name, str):
        ch.failkind = R.get(R.I.import_("asyncio"), name) if name == "CancelledError" else name


def c07_two(R, roles, sync):
    """two channels of unrelated sessions in one process, used in turn"""
    setup(R)
    chs = [Chan(R, "wire"), Chan(R, "other_wire")]
    ecs = [enc_channel(R, ro, c, key=R.inp("key%d" % i, 32)) for i, (ro, c) in enumerate(zip(roles, chs))]
    for i, (w, n) in enumerate(((0, 1), (1, 1), (1, 2), (0, 2), (1, 1), (0, 1))):
        o = R.run(ecs[w], "write", *[R.inp("m%d_%d" % (i, j)) for j in range(n)], sync=sync)
        R.check(o[0] == "ret", "write-raises", lambda: "write ends with %s" % R.outcome(o))
    for ro, c in zip(roles, chs):
        wire_nonces(R, ro, c.flat())


def c07_channel(R, role, sync, session, wfail, mode):
    setup(R)
    sess = R.inp("session_nonce", 8) if session else None
    ch = Chan(R, "wire", None, wfail=bool(wfail))
    failkind(R, ch, wfail)
    ec = enc_channel(R, role, ch, session=sess)
    sv = sess if session else bytes(8)
    if mode == "widen":
        st = []
        for i in range(3):
            R.run(ec, "write", R.inp("m%d" % i), sync=sync)
            st.append(int_state(ec))
        K = widen(R, ec, st)
        if K is None:
            return
        R.ctx.bounds.setdefault(("sym", "K"), (0, 1 << 61))
        n0 = len(R.evs("box"))
        out = R.run(ec, "write", R.inp("m3"), sync=sync)
        out2 = R.run(ec, "write", R.inp("m4"), R.inp("m5"), sync=sync)
        new = R.evs("box")[n0:]
        R.check(out[0] == "ret" and out2[0] == "ret" and len(new) == 3, "write-late",
                lambda: "a later write (counter generalised) ends with %s/%s" % (R.outcome(out), R.outcome(out2)))
        check_nonces(R, role, sv, ladd(K, 3), new) if False else None
        for i, e in enumerate(new):
            want = ladd(lmul(K, 2), ROLE0[role] + 2 * (3 + i))
            R.check(R.is_(e.data[1], R.cat(R.le(want, 8), sv, bytes(8))), "write-nonce-step",
                    lambda: "message no. %d+K of the %s uses nonce %s, expected counter %s" % (4 + i, role, R.sh(e.data[1]), show_lin(want)), e)
        return
    if mode == "odd":
        # a call that cannot be completed because one of its messages is not a byte string
        for i, bad in enumerate(([R.inp("a0"), None], [R.inp("b0"), R.inp("b1"), 5], ["text"], [R.inp("c0"), "text", R.inp("c1")])):
            R.run(ec, "write", *bad, sync=sync)
            R.run(ec, "write", R.inp("good%d" % i), sync=sync)
        return check_nonces(R, role, sv)
    if mode == "nested":
        # while the transport is still working on a write, another task writes on the same channel
        st = [0]

        def again(c):
            if st[0] < 2:
                st[0] += 1
                R.run(ec, "write", R.inp("nested%d" % st[0]))
        ch.on_write = again
    for i, n in enumerate((1, 2, 1, 3) if not wfail else (1, 2, 1)):
        out = R.run(ec, "write", *[R.inp("m%d_%d" % (i, j)) for j in range(n)], sync=sync, **({"is_last": True} if i in (1, 3) else {}))
        R.check(out[0] == "ret" or wfail, "write-raises", lambda: "write ends with %s" % R.outcome(out))
    if mode == "nested":
        # nonces are unique, and packets are handed over in nonce order
        seen = []
        for m, e in ch.flat():
            k = kind(R, m)
            if k[0] == "enc":
                seen.append((k[4], e))
        for i, (n, e) in enumerate(seen):
            R.check(not any(R.is_(n, n2) for n2, _ in seen[:i]), "nonce-reuse",
                    lambda: "two messages handed to the transport use the same nonce %s" % R.sh(n), e)
        R.check(len(seen) >= 7, "nested-writes-lost", "messages written while another write is in progress are lost")
        check_nonces(R, role, sv)
        return
    check_nonces(R, role, sv)
    wire_nonces(R, role, ch.flat(), sv)
    for m, e in ch.flat():
        R.check(kind(R, m)[0] == "enc", "not-encrypted", lambda: "%s is not an encrypted packet" % R.sh(m), e)


def c07_scenarios(tier):
    r = []
    big = tier == "thorough"
    for ro in ("client", "server"):
        for s in (False, True):
            for b in (False, True):
                r.append(Scn("%s session writes (sync=%s buffering=%s)" % (ro, yn(s), yn(b)),
                             lambda R, a=(ro, s, b, False, (1, 2, 1)): c07_session(R, *a), max_traces=4000))
        for b in (False, True):
            r.append(Scn("%s session, handshake interrupted by a failing write (buffering=%s)" % (ro, yn(b)), lambda R, a=(ro, False, b): c07_interrupted(R, *a)))
        r.append(Scn("%s session, failing transport writes" % ro, lambda R, a=(ro, False, False, True, (1, 2) if not big else (1, 2, 1)): c07_session(R, *a), max_traces=8000))
        for sess in (False, True):
            for s in (False, True):
                r.append(Scn("%s encrypted channel writes (sync=%s session nonce=%s)" % (ro, yn(s), yn(sess)), lambda R, a=(ro, s, sess, False, ""): c07_channel(R, *a)))
            r.append(Scn("%s encrypted channel, failing transport (session nonce=%s)" % (ro, yn(sess)), lambda R, a=(ro, False, sess, True, ""): c07_channel(R, *a)))
            for fk in FAILKINDS if not sess or big else ():
                r.append(Scn("%s encrypted channel, transport failing with %s (session nonce=%s)" % (ro, fk, yn(sess)), lambda R, a=(ro, False, sess, fk, ""): c07_channel(R, *a)))
            r.append(Scn("%s encrypted channel, messages that cannot be sent (session nonce=%s)" % (ro, yn(sess)), lambda R, a=(ro, False, sess, False, "odd"): c07_channel(R, *a)))
            r.append(Scn("%s encrypted channel, concurrent writes (session nonce=%s)" % (ro, yn(sess)), lambda R, a=(ro, False, sess, False, "nested"): c07_channel(R, *a)))
            r.append(Scn("%s encrypted channel, any counter value (session nonce=%s)" % (ro, yn(sess)), lambda R, a=(ro, False, sess, False, "widen"): c07_channel(R, *a)))
    for a in (("client", "client"), ("client", "server"), ("server", "server")):
        r.append(Scn("a %s's and a %s's encrypted channel in one process" % a, lambda R, a=a: c07_two(R, a, False)))
    return r + hist([s for s in r if "session writes" in s.name], tier, ("(sync=no buffering=no)",), ("same", "other", "pending", "retry", "reuse", "refused", "loop"))


# ------------------------------------------------------------------ C08
def check_read(R, out, rxev, k, key, role, sess, what):
    """one read call of the encrypted channel: k messages delivered before"""
    opens = [e for e in R.evs("open") if e.n > rxev.n]
    raw = rxev.data[1]
    if out[0] == "ret":
        ok = [e for e in opens if e.data[0]]
        n = R.cat(R.le(k, 8), sess, bytes(8))
        if not R.check(bool(ok), "deliver-unauthenticated", lambda: "%s returns %s without authenticating it" % (what, R.sh(out[1]))):
            return True
        body = R.sl(raw, 2, R.ctx.blen(raw)) if R.ctx.known_le0(lsub(Lin(2), R.ctx.blen(raw))) is True else None
        R.check(body is not None and R.is_(out[1], R.T.open(body, n, key)), "deliver-wrong-nonce",
                lambda: "%s delivers %s; expected the body of the received packet opened with counter %s under the session key" % (what, R.sh(out[1]), show_lin(lin(k))))
        R.check(R.is_(R.sl(raw, 0, 1), b"\x06"), "deliver-wrong-type", lambda: "%s accepts a packet that is not an encrypted packet" % what)
        return True
    if out[0] == "exc" and not any(e.n > rxev.n for e in R.evs("libfail")):
        R.check(R.exc_is(out[1], "BadPeer"), "reject-kind", lambda: "%s rejects a message with %s instead of BadPeer" % (what, R.outcome(out)))
    return False


def c08_channel(R, role, sync, session, mode):
    setup(R)
    sess = R.inp("session_nonce", 8) if session else None
    key = R.inp("key", 32)
    ch = Chan(R, "wire", feed(R, "rx"))
    ec = enc_channel(R, role, ch, key=key, session=sess)
    sv = sess if session else bytes(8)
    base = 3 - ROLE0[role]
    k = 0
    if mode == "widen":
        st = []
        for i in range(3):
            out = R.run(ec, "read", sync=sync)
            if out[0] != "ret":
                raise Infeasible()      # the failing reads are the other scenario's business
            st.append(int_state(ec))
        K = widen(R, ec, st)
        if K is None:
            return
        for i in range(2):
            n0 = len(ch.reads)
            out = R.run(ec, "read", sync=sync)
            if len(ch.reads) == n0:
                R.check(False, "read-without-input", "read() returns without reading from the transport")
                return
            if check_read(R, out, ch.reads[-1][1], ladd(lmul(K, 2), base + 2 * (3 + i)), key, role, sv, "read no. %d+K" % (4 + i)) is False:
                return
        return
    for i in range(4 if mode == "deep" else 3):
        n0 = len(ch.reads)
        out = R.run(ec, "read", sync=sync)
        if len(ch.reads) != n0 + 1:
            R.check(False, "read-input", "one read() call takes %d messages from the transport" % (len(ch.reads) - n0))
            return
        if check_read(R, out, ch.reads[-1][1], base + 2 * k, key, role, sv, "read no. %d" % (i + 1)):
            k += 1


def c08_two(R, roles, sync):
    """two channels of unrelated sessions in one process, reading in turn"""
    setup(R)
    n = [0]

    def packet():
        n[0] += 1
        return R.cat(b"\x06\0", R.inp("rx%d" % n[0], 40))
    chs = [Chan(R, "wire", packet), Chan(R, "other_wire", packet)]
    keys = [R.inp("key%d" % i, 32) for i in (0, 1)]
    ecs = [enc_channel(R, ro, c, key=k) for ro, c, k in zip(roles, chs, keys)]
    got = [0, 0]
    for i, w in enumerate((0, 1, 1, 0)):
        n0 = len(chs[w].reads)
        out = R.run(ecs[w], "read", sync=sync)
        if len(chs[w].reads) != n0 + 1:
            R.check(False, "read-input", "one read() call takes %d messages from the transport" % (len(chs[w].reads) - n0))
            return
        if check_read(R, out, chs[w].reads[-1][1], 3 - ROLE0[roles[w]] + 2 * got[w], keys[w], roles[w], bytes(8), "read no. %d of one of two channels" % (i + 1)):
            got[w] += 1


def c08_session(R, role, sync, buf):
    setup(R)
    P = mk_client(R, sync=sync, buf=buf) if role == "client" else mk_server(R, sync=sync, buf=buf)
    out = handshake(R, P, sync)
    if out[0] == "ret" and newchan(R, P) is not None:
        out = R.run(app(R, P), "read", sync=sync)
        if out[0] == "ret":
            op = [e for e in R.evs("open") if e.data[0]]
            R.check(len(op) >= 2 and op[-1].n > P.chan.reads[-1][1].n, "app-unauthenticated", "the application channel delivers data that was not authenticated")
    base = 3 - ROLE0[role]
    k = 0
    for e in R.evs("open"):
        R.check(R.is_(e.data[2], nonce(R, base + 2 * k)), "read-nonce",
                lambda: "received message no. %d is opened with nonce %s, expected counter %d" % (k + 1, R.sh(e.data[2]), base + 2 * k), e)
        if e.data[0]:
            k += 1


def c08_scenarios(tier):
    r = []
    for ro in ("client", "server"):
        for sess in (False, True):
            for s in (False, True):
                r.append(Scn("%s encrypted channel reads arbitrary packets (sync=%s session nonce=%s)" % (ro, yn(s), yn(sess)), lambda R, a=(ro, s, sess, "deep" if tier == "thorough" else ""): c08_channel(R, *a)))
            r.append(Scn("%s encrypted channel reads, failing crypto library (session nonce=%s)" % (ro, yn(sess)), lambda R, a=(ro, False, sess, ""): c08_channel(R, *a), env={"libfail": ("crypto_box_open_afternm",)}))
            r.append(Scn("%s encrypted channel reads, any counter value (session nonce=%s)" % (ro, yn(sess)), lambda R, a=(ro, False, sess, "widen"): c08_channel(R, *a)))
        for b in (False, True):
            r.append(Scn("%s session reads (buffering=%s)" % (ro, yn(b)), lambda R, a=(ro, False, b): c08_session(R, *a)))
    for a in (("client", "client"), ("client", "server")):
        r.append(Scn("a %s's and a %s's encrypted channel in one process" % a, lambda R, a=a: c08_two(R, a, False), max_traces=8000))
    return r + hist([s for s in r if "session reads" in s.name], tier, ("(buffering=no)",), ("same", "other", "pending", "retry", "reuse", "refused", "loop"))


# ------------------------------------------------------------------ C09
def leaks(R, v, secrets, depth=0, text=False):
    """secret terms visible in a value (not under encryption, signature, hash or key derivation)"""
    out = []
    ctx = R.ctx
    if depth > 8:
        return out
    if isinstance(v, SBytes):
        v = ctx.renorm(v)
        if isinstance(v, bytes):
            return out
        for s in v.segs:
            if s[0] == "s":
                out += atom_leaks(R, s[1], secrets, depth)
    elif isinstance(v, Lin):
        for a, k in ctx.norm(v).t:
            out += atom_leaks(R, a, secrets, depth)
    elif isinstance(v, (BArr, MView)):
        out += leaks(R, R.I.tobytes(v), secrets, depth + 1)
    elif isinstance(v, SStr):
        for p in v.parts:
            if isinstance(p, tuple):
                for x in p[1:]:
                    out += leaks(R, x, secrets, depth + 1)
    elif isinstance(v, (tuple, list, set, frozenset)):
        for x in v:
            out += leaks(R, x, secrets, depth + 1)
    elif isinstance(v, dict):
        for a, b in v.items():
            out += leaks(R, a, secrets, depth + 1) + leaks(R, b, secrets, depth + 1)
    elif isinstance(v, Obj):
        if v.seq is not None:
            out += leaks(R, v.seq, secrets, depth + 1)
        if v.cls.sub(R.I.exc["BaseException"]):
            out += leaks(R, v.d.get("args", ()), secrets, depth + 1)
        elif v.cls.ns.get("__str__") is not None or v.cls.ns.get("__repr__") is not None or v.cls.ext.get("namedtuple"):
            try:
                out += leaks(R, R.I.str(v), secrets, depth + 1)
            except (PyExc, Unsupported):
                pass
    return out


def atom_leaks(R, a, secrets, depth):
    out = []
    if a in secrets:
        return [a]
    if a[0] in ("box", "sig", "sha512", "xpub", "edpub"):
        return out
    if a[0] == "dh":
        return [a]
    if a[0] == "open":          # data the peer sent; not a secret of this party
        return out
    if a[0] == "len":
        return out
    for x in a[1:]:
        if isinstance(x, (SBytes, Lin)):
            out += leaks(R, x, secrets, depth + 1)
        elif isinstance(x, tuple) and x and isinstance(x[0], tuple):
            for y in x:
                for z in y:
                    if isinstance(z, (SBytes, Lin)):
                        out += leaks(R, z, secrets, depth + 1)
    return out


def c09(R, role, sync, buf, wfail, read=False):
    setup(R)
    P = mk_client(R, sync=sync, buf=buf) if role == "client" else mk_server(R, sync=sync, buf=buf)
    secrets = {("in", "client_sig_seed", 32), ("in", "server_sig_seed", 32), ("in", "client_enc_sec", 32), ("in", "server_enc_sec", 32)}
    out = handshake(R, P, sync)
    outs = [out]
    if out[0] == "ret" and newchan(R, P) is not None:
        P.chan.wfail = wfail
        a = app(R, P)
        for i, n in enumerate((1, 2) if not read else ()):
            ms = []
            for j in range(n):
                ms.append(R.inp("msg%d_%d" % (i, j)))
                secrets.add(("in", "msg%d_%d" % (i, j), None))
            outs.append(R.run(a, "write", *ms, sync=sync, is_last=(i == 1)))
        if read:
            outs.append(R.run(a, "read", sync=sync))
    key = None
    rx = [v for v, _ in P.chan.reads]
    if rx:
        lo = 6 if role == "client" else 10
        if R.ctx.known_le0(lsub(Lin(lo + 32), R.ctx.blen(rx[0]))) is True:
            key = R.dhk(R.sl(rx[0], lo, lo + 32), P.encsec)
    plainly = True
    for m, e in P.chan.flat():
        k = kind(R, m)
        lk = leaks(R, m, secrets)
        R.check(not lk, "secret-on-the-wire", lambda: "%s is sent in clear inside %s" % (", ".join(show_atom(x) for x in lk), R.sh(m)), e)
        first = "M1" if role == "client" else "M2"
        if plainly and k[0] == first:
            plainly = False
            continue
        if plainly and role == "server" and k[0] == "A2":
            continue
        R.check(k[0] == "enc" and key is not None and R.is_(k[5], key), "clear-after-handshake",
                lambda: "after %s the %s sends %s, which is not an encrypted packet under the session key" % (first, role, R.sh(m)), e)
    c09_texts(R, outs, secrets)


def c09_texts(R, outs, secrets):
    for e in R.I.events[R.mark:]:
        if e.kind in ("log", "print"):
            lk = leaks(R, list(e.data), secrets)
            R.check(not lk, "secret-logged", lambda: "%s is part of a log record" % ", ".join(show_atom(x) for x in lk), e)
        elif e.kind == "raise":
            lk = leaks(R, e.data[0], secrets)
            R.check(not lk, "secret-in-exception", lambda: "%s is part of the text of %s" % (", ".join(show_atom(x) for x in lk), e.data[1]), e)
    for o in outs:
        if o[0] == "exc":
            lk = leaks(R, o[1], secrets)
            R.check(not lk, "secret-in-exception", lambda: "%s is part of the text of %s" % (", ".join(show_atom(x) for x in lk), R.outcome(o)))


def c09_misuse(R, what, role, sync):
    """a session or channel that is set up wrongly, or given data it cannot send: what it reports contains no secret"""
    setup(R)
    secrets = {("in", "%s_%s" % (w, k), 32) for w in ("client", "server") for k in ("sig_seed", "enc_sec")}
    outs = []
    if what == "key-size":
        key = R.inp("short_key")
        secrets.add(("in", "short_key", None))
        for w in ("client", "server"):
            outs.append(R.call(R.cls("saltchannel.v2.encrypted_channel_v2", "EncryptedChannelV2"), Chan(R, "wire").obj, key, role_obj(R, w)))
        return c09_texts(R, outs, secrets)
    if what == "odd-data":
        secrets |= {("in", "key", 32), ("in", "message", None)}
        m = R.inp("message")
        for w in ("client", "server"):
            ec = enc_channel(R, w, Chan(R, "wire"))
            for x in ([BArr(m)], [m, MView(m, Lin(0), R.ctx.blen(m))], [(m,)], [[m], m], [SStr((("decode", m, "latin-1"),))]):
                outs.append(R.run(ec, "write", *x, sync=sync))
        return c09_texts(R, outs, secrets)
    P = (mk_client if role == "client" else mk_server)(R, sync=sync)
    pub = P.encpub
    if what == "no-enc-keys":
        R.set(P.s, "enc_keypair", None)
    elif what == "no-sig-keys":
        R.set(P.s, "sig_keypair", None)
    elif what == "short-enc-key":
        secrets.add(("in", "odd_enc_sec", None))
        R.set(P.s, "enc_keypair", R.keypair(R.inp("odd_enc_sec"), pub))
    elif what == "odd-enc-pub":
        R.set(P.s, "enc_keypair", R.keypair(P.encsec, R.inp("odd_enc_pub")))
    elif what == "short-sig-key":
        secrets.add(("in", "odd_sig_sec", None))
        R.set(P.s, "sig_keypair", R.keypair(R.inp("odd_sig_sec"), P.sigpub))
    elif what == "odd-pin":
        R.set(P.s, "wanted_server_sig_key", R.inp("odd_pin"))
    elif what == "odd-clock":
        R.set(P.s, "time_keeper", 5)
    elif what == "transport":
        P.chan.rfail = P.chan.wfail = True
    o = R.run(P.s, "handshake", sync=sync)
    outs.append(o)
    if o[0] == "ret" and R.get(P.s, "app_channel") is not None:
        a = app(R, P)
        secrets.add(("in", "message", None))
        m = R.inp("message")
        bad = {"odd-message": [m, 5], "odd-message2": [m, "text"], "odd-message3": [(m, m)], "odd-message4": [BArr(m), None]}.get(what)
        outs.append(R.run(a, "write", *(bad or [m]), sync=sync))
    c09_texts(R, outs, secrets)


def c09_channel(R, role, sync, plan):
    """the encrypted channel used by itself: messages of any size, the empty one included"""
    setup(R)
    ch = Chan(R, "wire")
    key = R.inp("key", 32)
    ec = enc_channel(R, role, ch, key=key)
    ms = []
    for i, n in enumerate(plan):
        new = [R.inp("msg%d_%d" % (i, j)) for j in range(n)]
        ms += new
        o = R.run(ec, "write", *new, sync=sync, is_last=i == 1)
        if R.evs("libfail"):
            break
        if not R.check(o[0] == "ret", "write-fails", lambda: "write() ends with %s" % R.outcome(o)):
            return
    w = ch.flat()
    R.check(len(w) == len(ms) or R.evs("libfail"), "packets", lambda: "%d messages are sent as %d packets" % (len(ms), len(w)))
    for (m, e), p in zip(w, ms):
        k = parse_enc(R, m)
        b = as_box(R, k[1]) if k is not None else None
        R.check(b is not None and R.is_(b[2], key), "clear-after-handshake", lambda: "the channel sends %s, which is not an encrypted packet under its key" % R.sh(m), e)
        R.check(b is None or R.is_(b[0], p), "ciphertext-of", lambda: "the ciphertext %s is not that of the message" % R.sh(m), e)


LIBFAIL = ("crypto_sign", "crypto_sign_open", "crypto_box_afternm", "crypto_box_open_afternm", "crypto_box_beforenm", "crypto_hash")
MISUSE = ("no-enc-keys", "no-sig-keys", "short-enc-key", "odd-enc-pub", "short-sig-key", "odd-pin", "odd-clock", "transport", "odd-message", "odd-message2", "odd-message3", "odd-message4")


def c09_scenarios(tier):
    r = []
    for ro in ("client", "server"):
        for w in MISUSE:
            if (ro, w) != ("server", "odd-pin"):
                for s in (False, True) if tier == "thorough" else (False,):
                    r.append(Scn("%s session misused: %s (sync=%s)" % (ro, w, yn(s)), lambda R, a=(w, ro, s): c09_misuse(R, *a)))
    for ro in ("client", "server"):
        r.append(Scn("%s encrypted channel by itself" % ro, lambda R, a=(ro, False, (1, 2)): c09_channel(R, *a)))
        r.append(Scn("%s encrypted channel by itself, failing crypto library" % ro, lambda R, a=(ro, False, (1, 2)): c09_channel(R, *a), env={"libfail": ("crypto_box_afternm",)}))
        r.append(Scn("%s session and channel, failing crypto library" % ro, lambda R, a=(ro, False, False, False): c09(R, *a), env={"libfail": LIBFAIL}))
    r.append(Scn("encrypted channel given messages that are not bytes", lambda R: c09_misuse(R, "odd-data", None, False)))
    r.append(Scn("encrypted channel with a key of any size", lambda R: c09_misuse(R, "key-size", None, False)))
    for ro in ("client", "server"):
        for b in (False, True):
            for s in (False, True):
                r.append(Scn("%s session and channel (sync=%s buffering=%s)" % (ro, yn(s), yn(b)), lambda R, a=(ro, s, b, False): c09(R, *a)))
            r.append(Scn("%s session and channel, reading (buffering=%s)" % (ro, yn(b)), lambda R, a=(ro, False, b, False, True): c09(R, *a)))
            r.append(Scn("%s session with failing writes (buffering=%s)" % (ro, yn(b)), lambda R, a=(ro, False, b, True): c09(R, *a)))
    return r + hist([x for x in r if "session and channel" in x.name], tier, ("(sync=no buffering=no)", "reading (buffering=no)"), ("same", "retry", "reuse", "refused", "loop"))


# ------------------------------------------------------------------ C10 / C11
def app_pair(R, roles=("client", "server"), refuse=False, session=None, wfail=False):
    key = R.inp("key", 32)
    W = Wire(R)
    a, b = roles
    ca, cb = W.end(a, b), W.end(b, a)
    ka, kb = R.keeper(a), R.keeper(b)
    ha, hb = R.checker(a), R.checker(b, refuse)
    ea, eb = enc_channel(R, a, ca, key=key, session=session), enc_channel(R, b, cb, key=key, session=session)
    A = R.new("saltchannel.v2.app_channel_v2", "AppChannelV2", ea, ka.obj, ha.obj)
    B = R.new("saltchannel.v2.app_channel_v2", "AppChannelV2", eb, kb.obj, hb.obj)
    return W, A, B, ca, cb, (ka, kb, ha, hb), (ea, eb)


def like(R, m, how):
    return BArr(m) if how == "bytearray" else MView(m, Lin(0), R.ctx.blen(m))


def c10(R, role, sync, plan, consts=None, how=None):
    setup(R)
    peer = "server" if role == "client" else "client"
    W, A, B, ca, cb, _, _ = app_pair(R, (role, peer))
    sent = []
    got = []
    done = [0]

    def readall(n):
        for _ in range(n):
            o = R.run(B, "read", sync=sync)
            if o[0] != "ret":
                R.check(False, "message-lost", lambda: "message %d of %d: read() ends with %s" % (len(got) + 1, len(sent), R.outcome(o)))
                return False
            if not R.check(R.is_(o[1], sent[len(got)]), "message-changed",
                           lambda: "message %d was written as %s and read as %s" % (len(got) + 1, R.sh(sent[len(got)]), R.sh(o[1]))):
                return False
            got.append(o[1])
        return True
    for i, step in enumerate(plan):
        if step == "read":
            if len(got) < len(sent) and not readall(1):
                return
            continue
        ms = [R.inp("m%d_%d" % (i, j)) if (consts is None or j not in consts) else consts[j] for j in range(step)]
        args = ms if how is None else [like(R, m, how) for m in ms]
        o = R.run(A, "write", *args, sync=sync)
        if not R.check(o[0] == "ret", "write-fails", lambda: "write() of %d messages ends with %s" % (step, R.outcome(o))):
            return
        for x in args:
            if isinstance(x, BArr):
                x.v = b""       # the buffer is the application's again
        sent.extend(ms)
        done[0] += 1
    if not readall(len(sent) - len(got)):
        return
    o = R.run(B, "read", sync=sync)
    R.check(o[0] == "blocked", "message-duplicated", lambda: "after all %d messages were read, read() ends with %s %s" % (len(sent), R.outcome(o), R.sh(o[1]) if o[0] == "ret" else ""))
    for e in R.evs("trunc"):
        R.check(False, "field-overflow", lambda: "%s does not fit its wire field" % R.sh(list(e.data)), e)
    for e in R.evs("oob"):
        R.check(False, "memory", lambda: R.sh(list(e.data)), e)


def c10_both(R, sync, plan, separate=False):
    """both directions of one channel, or two channels of unrelated peers: n = first writer writes n messages (-n: the second), "read"/"peer" = its reader reads"""
    setup(R)
    W, A, B, *_ = app_pair(R)
    D = [[A, B, [], 0], [B, A, [], 0]]
    if separate:
        W2 = Wire(R, "two_")
        c2, s2 = W2.end("client", "server"), W2.end("server", "client")
        mk = lambda ro, c: R.new("saltchannel.v2.app_channel_v2", "AppChannelV2", enc_channel(R, ro, c, key=R.inp("key2", 32)), R.keeper("two_" + ro).obj, R.checker("two_" + ro).obj)
        D[1][:2] = mk("client", c2), mk("server", s2)
    for i, step in enumerate(plan):
        if isinstance(step, int):
            d = D[step < 0]
            ms = [R.inp("m%d_%d" % (i, j)) for j in range(abs(step))]
            o = R.run(d[0], "write", *ms, sync=sync)
            if not R.check(o[0] == "ret", "write-fails", lambda: "write() of %d messages ends with %s" % (len(ms), R.outcome(o))):
                return
            d[2].extend(ms)
            continue
        d = D[step == "peer"]
        o = R.run(d[1], "read", sync=sync)
        if not R.check(o[0] == "ret", "message-lost", lambda: "message %d of %d: read() ends with %s" % (d[3] + 1, len(d[2]), R.outcome(o))):
            return
        if not R.check(R.is_(o[1], d[2][d[3]]), "message-changed", lambda: "message %d was written as %s and read as %s" % (d[3] + 1, R.sh(d[2][d[3]]), R.sh(o[1]))):
            return
        d[3] += 1


def c10_count(R):
    """a write of an unbounded number of messages: no wire field may overflow"""
    setup(R)
    key = R.inp("key", 32)
    ch = Chan(R, "wire", None)
    ec = enc_channel(R, "client", ch, key=key)
    A = R.new("saltchannel.v2.app_channel_v2", "AppChannelV2", ec, R.keeper("client").obj, R.checker("client").obj)
    n = R.sym("number_of_messages", 1, 1 << 40)
    rep = R.inp("message")
    try:
        R.I.await_(R.I.call(R.meth(A, "write"), [R.inp("first"), ("*sym", SymSeq(n, rep))], {}))
    except (Unsupported, Cut) as e:
        R.stats.note("message count scenario stops: %s" % e)
    except (PyExc, Blocked):
        pass
    R.obl += 1
    for e in R.evs("trunc"):
        R.check(False, "field-overflow", lambda: "%s does not fit its wire field" % R.sh(list(e.data)), e)


from .interp import SymSeq


def c10_scenarios(tier):
    plans = [(1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, "read", 2), (2, 2), (3, "read", 1)]
    if tier == "thorough":
        plans += [(4,), (2, 2, 2), (3, 3), (1, "read", 2, "read", 1), (5,)]
    r = []
    for ro in ("client", "server"):
        for p in plans:
            r.append(Scn("%s writes %s, peer reads" % (ro, p), lambda R, a=(ro, False, p): c10(R, *a), max_traces=4000))
        for how in ("bytearray", "memoryview"):
            r.append(Scn("%s writes (1, 2) %s objects, peer reads" % (ro, how), lambda R, a=(ro, False, (1, 2), None, how): c10(R, *a)))
        r.append(Scn("%s writes (2, 1) synchronously, peer reads" % ro, lambda R, a=(ro, True, (2, 1)): c10(R, *a)))
        r.append(Scn("%s writes empty messages" % ro, lambda R, a=(ro, False, (1, 3), {0: b"", 2: b""}): c10(R, *a)))
    for n in sorted({300, 1500, 22000, 33000} | {c + d for c in mined(("v2", "a1a2"), 4, 3000) for d in (0, 1)}):
        r.append(Scn("client writes %d short messages at once, server reads" % n, lambda R, n=n: c10(R, "client", False, (n,), Short()), env=LONG))
        r.append(Scn("server writes %d empty messages at once, client reads" % n, lambda R, n=n: c10(R, "server", False, (n,), Short(b"")), env=LONG))
    r.append(Scn("client writes 300 short messages one by one, server reads", lambda R: c10(R, "client", False, (1,) * 300, Short()), env=LONG))
    r.append(Scn("server writes 300 pairs, client reads behind", lambda R: c10(R, "server", False, (2, "read") * 300, Short()), env=LONG))
    for n in many():
        r.append(Scn("server writes %d messages that do not fit one packet" % n, lambda R, n=n: c10(R, "server", False, (n,), Apart(R, 1)), env=LONG))
    for s in (False, True):
        for p in (((3, "read", -3, "peer", "read", "peer", "read", "peer"), (1, -2, 2, "peer", "read", -1, "read", "peer", "read", "peer"))):
            r.append(Scn("both peers write and read %s (sync=%s)" % (p, yn(s)), lambda R, a=(s, p): c10_both(R, *a)))
            r.append(Scn("two channels in one process %s (sync=%s)" % (p, yn(s)), lambda R, a=(s, p): c10_both(R, *a, separate=True)))
    r.append(Scn("any number of messages in one write", lambda R: c10_count(R)))
    return r


LONG = {"maxsteps": 20000000}


def mined(dirs, lo, hi):
    """integer constants of the current source: the values at which the code may behave differently"""
    out = set()
    for d in dirs:
        for dp, _, fs in os.walk(os.path.join(ROOT, "saltchannel", d)):
            for f in fs:
                if f.endswith(".py"):
                    try:
                        t = ast.parse(open(os.path.join(dp, f)).read())
                    except (SyntaxError, ValueError):
                        continue
                    data = {id(x) for n in ast.walk(t) if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and len(n.elts) > 8 for x in n.elts}    # tables of bytes
                    out |= {n.value for n in ast.walk(t) if isinstance(n, ast.Constant) and type(n.value) is int and lo <= n.value <= hi and id(n) not in data}
    return out


class Short:
    """short constant messages, all different (or all the same)"""

    def __init__(self, v=None):
        self.v = v

    def __contains__(self, j):
        return True

    def __getitem__(self, j):
        return self.v if self.v is not None else b"m%d" % j


class Apart(Short):
    """short constant messages and one that does not fit a combined packet"""

    def __init__(self, R, at=0):
        self.big, self.at, self.v = R.ctx.zeros(70000), at, None

    def __getitem__(self, j):
        return self.big if j == self.at else b"m%d" % j


def many():
    """numbers of messages for long writes"""
    return sorted({300, 1500} | {c + 1 for c in mined(("v2",), 300, 5000)})


def flags_last(R, f):
    l = lin(R.ctx.getbits(f, 7, 1))
    return R.ctx.known_eq0(lsub(l, 1)) is True, R.ctx.known_eq0(l) is True


def c11(R, role, sync, plan, apart=None, equal=False):
    """plan: [(number of messages, is_last)]; equal: all messages are one and the same object"""
    setup(R)
    mk = Apart(R, apart) if apart is not None else None
    peer = "server" if role == "client" else "client"
    W, A, B, ca, cb, _, _ = app_pair(R, (role, peer))
    per = []
    for i, (n, last) in enumerate(plan):
        n0 = len(ca.writes)
        o = R.run(A, "write", *([R.inp("same")] * n if equal else [mk[j] if mk else R.inp("m%d_%d" % (i, j)) for j in range(n)]), sync=sync, **({} if last is None else {"is_last": last}))
        if o[0] != "ret":
            return
        pk = [(m, e) for ms, l, e in ca.writes[n0:] for m in ms]
        for j, (m, e) in enumerate(pk):
            k = kind(R, m)
            if k[0] != "enc":
                R.check(False, "not-a-packet", lambda: "%s is not an encrypted packet" % R.sh(m), e)
                return
            want = bool(last) and j == len(pk) - 1
            on, off = flags_last(R, k[6])
            R.check(on if want else off, "last-flag-wire", lambda: "packet %d of %d of a write with is_last=%s has flags %s" % (j + 1, len(pk), last, R.sh(k[6])), e)
            R.check(R.ctx.known_eq0(lin(R.ctx.getbits(k[6], 0, 7))) is True, "reserved-flags", lambda: "flags %s" % R.sh(k[6]), e)
            per.append(want)
    nread = len(cb.reads)
    total = sum(n for n, _ in plan)
    for i in range(total):
        o = R.run(B, "read", sync=sync)
        if o[0] != "ret":
            return
        if len(cb.reads) == 0:
            return
        want = per[len(cb.reads) - 1]
        got = R.get(B, "last")
        R.check(isinstance(got, (bool, int)) and bool(got) == want, "last-flag-read",
                lambda: "after reading packet %d (last=%s) the reader sees last=%s" % (len(cb.reads), want, R.sh(got)))


def c11_read(R, role, sync):
    """arbitrary received packets: last reflects the most recent packet"""
    setup(R)
    key = R.inp("key", 32)
    ch = Chan(R, "wire", feed(R, "rx"))
    ec = enc_channel(R, role, ch, key=key)
    A = R.new("saltchannel.v2.app_channel_v2", "AppChannelV2", ec, R.keeper("c").obj, R.checker("c").obj)
    for i in range(2):
        o = R.run(A, "read", sync=sync)
        if o[0] != "ret" or not ch.reads:
            return
        raw = ch.reads[-1][0]
        want = R.ctx.eq0(lsub(lin(R.ctx.getbits(R.sl(raw, 1, 2), 7, 1)), 1))
        got = R.get(A, "last")
        if isinstance(got, Top):
            raise Unsupported("last")
        R.check(R.I.truth(got) == want, "last-flag-read", lambda: "the most recently received packet has last=%s but the reader sees %s" % (want, R.sh(got)))
        got = R.get(ec, "last_flag") if "last_flag" in ec.d else got
        R.check(R.I.truth(got) == want, "last-flag-read", lambda: "the most recently received packet has last=%s but the channel says %s" % (want, R.sh(got)))


def c11_channel(R, role, sync, plan, equal=False):
    """the encrypted channel used by itself: messages of any size, the empty one included"""
    setup(R)
    key = R.inp("key", 32)
    peer = "server" if role == "client" else "client"
    ca, cb = Chan(R, "wire"), Chan(R, "wire2")
    A, B = enc_channel(R, role, ca, key=key), enc_channel(R, peer, cb, key=key)
    for i, (n, last) in enumerate(plan):
        n0 = len(ca.writes)
        o = R.run(A, "write", *([R.inp("same")] * n if equal else [R.inp("m%d_%d" % (i, j)) for j in range(n)]), sync=sync, **({} if last is None else {"is_last": last}))
        if o[0] != "ret":
            return
        pk = [(m, e) for ms, l, e in ca.writes[n0:] for m in ms]
        for j, (m, e) in enumerate(pk):
            k = parse_enc(R, m)
            if not R.check(k is not None, "not-a-packet", lambda: "%s is not an encrypted packet" % R.sh(m), e):
                return
            want = bool(last) and j == len(pk) - 1
            on, off = flags_last(R, k[0])
            R.check(on if want else off, "last-flag-wire", lambda: "packet %d of %d of a write with is_last=%s has flags %s" % (j + 1, len(pk), last, R.sh(k[0])), e)
            cb.source = lambda m=m: m
            o = R.run(B, "read", sync=sync)
            got = R.get(B, "last_flag")
            R.check(o[0] == "ret" and not isinstance(got, Top) and R.I.truth(got) == want, "last-flag-read",
                    lambda: "reading packet %d of %d of a write with is_last=%s ends with %s, last_flag=%s" % (j + 1, len(pk), last, R.outcome(o), R.sh(got)))


def c11_session(R, buf, last, n=1):
    setup(R)
    P = mk_client(R, buf=buf)
    out = R.run(P.s, "handshake")
    if out[0] != "ret":
        return
    out = R.run(app(R, P), "write", *[R.inp("m%d" % (i + 1)) for i in range(n)], is_last=last)
    for i, (ms, l, e) in enumerate(P.chan.writes[1:]):
        for j, m in enumerate(ms):
            k = kind(R, m)
            if k[0] != "enc":
                return
            want = last and i + 1 == len(P.chan.writes) - 1 and j == len(ms) - 1
            on, off = flags_last(R, k[6])
            R.check(on if want else off, "last-flag-wire", lambda: "%s (message %d of the write) has flags %s, last expected: %s" % (k[2], j + 1, R.sh(k[6]), want), e)


def c11_server(R, buf, last):
    setup(R)
    P = mk_server(R, buf=buf)
    out = R.run(P.s, "handshake")
    if out[0] == "ret" and R.get(P.s, "app_channel") is not None:
        R.run(app(R, P), "write", R.inp("m1"), is_last=last)
    ks = [(kind(R, m), e) for ms, l, e in P.chan.writes for m in ms]
    for i, (k, e) in enumerate(ks):
        if k[0] == "enc":
            want = last and k[2] != "M3" and i == len(ks) - 1
            on, off = flags_last(R, k[6])
            R.check(on if want else off, "last-flag-wire", lambda: "%s has flags %s, last expected: %s" % (k[2], R.sh(k[6]), want), e)
        elif k[0] == "M2" and not R.is_(R.sl(k[1], 1, 2), b"\x81"):
            R.check(flags_last(R, R.sl(k[1], 1, 2))[1], "last-flag-wire", lambda: "M2 %s is flagged last" % R.sh(k[1]), e)


def c11_scenarios(tier):
    plans = [[(1, None)], [(1, False)], [(1, True)], [(2, True)], [(2, None)], [(3, True)], [(1, False), (1, True)], [(2, False), (2, True)], [(1, True), (1, False)]]
    r = [Scn("%s writes %s" % (ro, p), lambda R, a=(ro, s, p): c11(R, *a)) for ro in ("client", "server") for p in plans for s in (False,)]
    r.append(Scn("client writes one object several times", lambda R: c11(R, "client", False, [(2, True), (3, None)], None, True)))
    r.append(Scn("client encrypted channel, one object several times", lambda R: c11_channel(R, "client", False, [(2, True), (3, False), (3, True)], True)))
    r.append(Scn("client writes synchronously", lambda R: c11(R, "client", True, [(2, True), (1, None)])))
    for n in many():
        for l in (True, False):
            r.append(Scn("client writes %d messages that do not fit one packet (last=%s)" % (n, yn(l)), lambda R, a=(n, l): c11(R, "client", False, [a], a[0] - 1), env=LONG))
    for ro in ("client", "server"):
        r.append(Scn("%s reads arbitrary packets" % ro, lambda R, a=(ro, False): c11_read(R, *a)))
        r.append(Scn("%s encrypted channel by itself" % ro, lambda R, a=(ro, False, [(1, True), (1, None), (2, True), (2, False)]): c11_channel(R, *a)))
    for b in (False, True):
        for l in (False, True):
            r.append(Scn("client session, M4 and first message (bufferM4=%s last=%s)" % (yn(b), yn(l)), lambda R, a=(b, l): c11_session(R, *a)))
            for n in (2, 3, 5):
                r.append(Scn("client session, M4 and first %d messages (bufferM4=%s last=%s)" % (n, yn(b), yn(l)), lambda R, a=(b, l, n): c11_session(R, *a)))
            r.append(Scn("server session (bufferM2=%s last=%s)" % (yn(b), yn(l)), lambda R, a=(b, l): c11_server(R, *a)))
    return r


# ------------------------------------------------------------------ C12
def c12_client(R, sync, pin, buf, plan=((1, False), (2, False), (1, False)), between=False):
    setup(R)
    P = mk_client(R, sync=sync, pin=pin, buf=buf)
    out = handshake(R, P, sync)
    if out[0] == "ret" and between:     # meanwhile other parties open a session in the same process, which stays open
        R.history = "pending"
        prior(R)
    names = lambda: [[name_of(kind(R, m)) for m in ms] for ms, _, _ in P.chan.writes]
    if out[0] != "ret":
        R.check(names() in ([], [["M1"]], [["M1"], ["M4"]]), "client-sequence", lambda: "client sends %s in a failing handshake" % names())
        return
    hs = names()
    R.check(hs == ([["M1"]] if buf else [["M1"], ["M4"]]), "client-handshake-sequence", lambda: "client sends %s in the handshake" % hs)
    n0 = len(P.chan.writes)
    for i, (n, last) in enumerate(plan):
        out = R.run(app(R, P), "write", *[R.inp("m%d_%d" % (i, j)) for j in range(n)], sync=sync, **({"is_last": True} if last else {}))
        if not R.check(out[0] == "ret", "write-fails", lambda: "write() after the handshake ends with %s" % R.outcome(out)):
            return
        new = names()[n0:]
        n0 = len(P.chan.writes)
        flat = [x for w in new for x in w]
        if i == 0 and buf:
            R.check(len(new) == 1 and len(flat) >= 2 and flat[0] == "M4" and all(x in ("App", "MultiApp") for x in flat[1:]), "buffered-m4",
                    lambda: "the first application write sends %s; expected M4 and the message in one write" % new)
        else:
            R.check(bool(flat) and all(x in ("App", "MultiApp") for x in flat), "client-app-sequence", lambda: "application write no. %d sends %s" % (i + 1, new))


C12MODE = {"fail": "failing transport writes", "nested": "overlapping writes of several tasks", "cancel": "the first write is abandoned by its task"}


def c12_overlap(R, mode):
    """buffered M4 and writes that overlap, fail or are abandoned while the transport works on them"""
    setup(R)
    P = mk_client(R, buf=True)
    out = R.run(P.s, "handshake")
    if out[0] != "ret":
        return
    a = app(R, P)
    n0 = len(P.chan.writes)
    if mode == "fail":
        P.chan.wfail = True
    elif mode == "nested":
        st = [0]

        def on(c):
            if st[0] < 2:
                st[0] += 1
                R.run(a, "write", R.inp("nested%d" % st[0]))
        P.chan.on_write = on
    else:
        st = [0]

        def on(c):
            st[0] += 1
            if st[0] == 1:
                R.I.throw(R.get(R.I.import_("asyncio"), "CancelledError"))
        P.chan.on_write = on
    for i in range(3):
        R.run(a, "write", R.inp("m%d" % i))
    ks = [(kind(R, m), e) for ms, l, e in P.chan.writes[n0:] for m in ms]
    names = [name_of(k) for k, _ in ks]
    R.check(names.count("M4") == 1, "m4-not-once", lambda: "with %s the packets handed to the transport are %s" % (C12MODE[mode], names))
    R.check(bool(names) and names[0] == "M4", "m4-not-first", lambda: "with %s the packets handed to the transport are %s" % (C12MODE[mode], names))


def c12_server(R, sync, buf):
    setup(R)
    P = mk_server(R, sync=sync, buf=buf)
    out = handshake(R, P, sync)
    ws = [[name_of(kind(R, m)) for m in ms] for ms, _, _ in P.chan.writes]
    if any(x == "M3" for w in ws for x in w) or (out[0] == "ret" and newchan(R, P) is not None):
        R.check(ws == ([["M2", "M3"]] if buf else [["M2"], ["M3"]]), "server-sequence", lambda: "server sends %s in the handshake" % ws)
    else:
        R.check(ws in ([], [["M2"]], [["A2"]]), "server-sequence", lambda: "server sends %s in a failing handshake" % ws)
    if out[0] == "ret" and newchan(R, P) is not None:
        # nothing is read between M2 and M3, M4 is read after M3
        rd = [e.n for _, e in P.chan.reads]
        wr = [e.n for _, _, e in P.chan.writes]
        R.check(len(rd) == 2 and rd[0] < wr[0] and wr[-1] < rd[1], "server-order", "the server reads or writes out of protocol order")
        n0 = len(P.chan.writes)
        for i in range(2):
            out = R.run(app(R, P), "write", R.inp("m%d" % i), sync=sync)
        new = [name_of(kind(R, m)) for ms, _, _ in P.chan.writes[n0:] for m in ms]
        R.check(new == ["App", "App"], "server-app-sequence", lambda: "two application writes send %s" % new)


def c12_scenarios(tier):
    r = []
    for s in (False, True):
        for b in (False, True):
            for p in (False, True):
                r.append(Scn("client (sync=%s pin=%s bufferM4=%s)" % (yn(s), yn(p), yn(b)), lambda R, a=(s, p, b): c12_client(R, *a), max_traces=8000))
            r.append(Scn("server (sync=%s bufferM2=%s)" % (yn(s), yn(b)), lambda R, a=(s, b): c12_server(R, *a)))
    for b in (False, True):
        for pl in (((2, False), (1, True)), ((3, True), (2, False)), ((1, True), (1, False))):
            r.append(Scn("client writes %s (sync=no bufferM4=%s)" % (" then ".join("%d%s" % (n, " last" * l) for n, l in pl), yn(b)),
                         lambda R, a=(False, False, b, pl): c12_client(R, *a), max_traces=8000))
        r.append(Scn("client (sync=no pin=no bufferM4=%s), other parties meet before it writes" % yn(b), lambda R, a=(False, False, b): c12_client(R, *a, between=True), max_traces=8000))
    for m in ("fail", "nested", "cancel"):
        r.append(Scn("first application writes with buffered M4, %s" % C12MODE[m], lambda R, m=m: c12_overlap(R, m), max_traces=8000))
    own = [x for x in r if "other parties meet" not in x.name]
    return r + hist(own, tier, ("(sync=no pin=no bufferM4=yes)", "(sync=no bufferM2=yes)"), ("same", "other", "pending", "retry", "reuse", "refused", "query", "loop")) \
        + again([x for x in own if "(sync=no pin=no bufferM4=no)" in x.name or "(sync=no bufferM2=no)" in x.name], ("pending",))


RULES1 = {"C01": c01_scenarios, "C02": c02_scenarios, "C03": c03_scenarios, "C04": c04_scenarios, "C05": c05_scenarios, "C06": c06_scenarios,
          "C07": c07_scenarios, "C08": c08_scenarios, "C09": c09_scenarios, "C10": c10_scenarios, "C11": c11_scenarios, "C12": c12_scenarios}
