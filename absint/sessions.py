"""Scenario building blocks for the session and channel classes (public API only)."""
from .harness import *


class Party:
    pass


def mk_client(R, sync=False, pin=False, buf=False, refuse=False, source=None, wfail=False, rfail=False, loop=None, null_time=False, tag="client",
              keeper=None, checker=None, chan=None, keys=None):
    prior(R)
    P = Party()
    P.role, P.sync, P.pin, P.buf = "client", sync, pin, buf
    P.sigkp, P.seed, P.sigpub, P.sigsec = R.sigkeys(keys or "client")
    P.enckp, P.encsec, P.encpub = R.enckeys(keys or "client")
    P.chan = chan or Chan(R, tag, source or feed(R, "rx"), wfail=wfail, rfail=rfail)
    P.s = R.new("saltchannel.v2.salt_client_session", "SaltClientSession", P.sigkp, P.chan.obj, **given_loop(R, loop))
    R.set(P.s, "enc_keypair", P.enckp)
    P.pinkey = None
    if pin:
        P.pinkey = R.inp("pinned_server_key", 32) if pin is True else pin
        R.set(P.s, "wanted_server_sig_key", P.pinkey)
    if buf:
        R.set(P.s, "buffer_M4", True)
    P.keeper = P.checker = None
    if not null_time:
        P.keeper, P.checker = keeper or R.keeper(tag), checker or R.checker(tag, refuse)
        R.set(P.s, "time_keeper", P.keeper.obj)
        R.set(P.s, "time_checker", P.checker.obj)
    return P


def mk_server(R, sync=False, buf=False, refuse=False, source=None, wfail=False, rfail=False, loop=None, null_time=False, tag="server",
              keeper=None, checker=None, chan=None, keys=None):
    prior(R)
    P = Party()
    P.role, P.sync, P.buf = "server", sync, buf
    P.sigkp, P.seed, P.sigpub, P.sigsec = R.sigkeys(keys or "server")
    P.enckp, P.encsec, P.encpub = R.enckeys(keys or "server")
    P.chan = chan or Chan(R, tag, source or feed(R, "rx"), wfail=wfail, rfail=rfail)
    P.s = R.new("saltchannel.v2.salt_server_session", "SaltServerSession", P.sigkp, P.chan.obj, **given_loop(R, loop))
    R.set(P.s, "enc_keypair", P.enckp)
    if buf:
        R.set(P.s, "buffer_m2", True)
    P.keeper = P.checker = None
    if not null_time:
        P.keeper, P.checker = keeper or R.keeper(tag), checker or R.checker(tag, refuse)
        R.set(P.s, "time_keeper", P.keeper.obj)
        R.set(P.s, "time_checker", P.checker.obj)
    return P


def given_loop(R, loop):
    if loop is None and getattr(R, "giveloop", False):
        loop = R.I.models.loop_obj()
    return {} if loop is None else {"loop": loop}


def prior(R):
    """history of the process: an earlier session which is over when the judged one starts"""
    h = getattr(R, "history", None)
    if not h:
        return
    R.history = None
    if h in ("retry", "reuse", "refused", "query"):
        R.retry = h
        return
    if h == "loop":
        R.giveloop = True
        return
    k = ("", "0")[h in ("other", "pending")]
    if h == "hostile":
        for mk, w in ((mk_client, "client"), (mk_server, "server")):
            P = mk(R, source=feed(R, "old_" + w), tag="old_" + w, keys=w + k)
            R.run(P.s, "handshake")
    else:
        W = Wire(R, "old_")
        cc, sc = W.end("client", "server"), W.end("server", "client")
        S = mk_server(R, chan=sc, tag="old_server", keys="server" + k, buf=h == "pending")
        C = mk_client(R, chan=cc, tag="old_client", keys="client" + k, buf=h == "pending")
        if h == "failed":       # either side meets a peer without a valid signature
            key = R.dhk(S.encpub, C.encsec)
            cs, ss = cc.source, sc.source

            def forged(orig, typ, n, name):
                def src():
                    src.k += 1
                    return orig() if src.k == 1 else R.cat(b"\x06\x00", R.T.box(R.cat(typ, R.inp(name, 101)), nonce(R, n), key))
                src.k = 0
                return src
            cc.source, sc.source = forged(cs, b"\x03", 2, "forged_m3"), forged(ss, b"\x04", 1, "forged_m4")

            def client():
                o = R.run(C.s, "handshake")
                if o[0] == "ret":
                    raise Infeasible()
                return o
        elif h == "pending":    # still under way: the client holds its M4 back, the server waits for it

            def client():
                return R.run(C.s, "handshake")
        else:
            def client():
                o = R.run(C.s, "handshake")
                if o[0] == "ret":
                    o = R.run(app(R, C), "write", b"old message")
                if o[0] == "ret":
                    o = R.run(app(R, C), "read")
                return o

        def server():
            o = R.run(S.s, "handshake")
            if o[0] == "ret" and h == "failed":
                raise Infeasible()
            if o[0] == "ret":
                o = R.run(app(R, S), "read")
                if o[0] == "ret":
                    o = R.run(app(R, S), "write", b"old answer", b"and another")
            return o
        W.run({"client": client, "server": server})
    R.I.models.running = []
    R.mark = len(R.I.events)


def setup(R):
    """imports with the ideal back end"""
    ideal_backend(R)


def app(R, P):
    return R.get(P.s, "app_channel")


# ------------------------------------------------------------------ specification terms
def nonce(R, n, session=bytes(8)):
    return R.cat(R.le(n, 8), session, bytes(8))


def parse_enc(R, m, partition=True):
    """(flags byte, ciphertext) of an encrypted packet on the wire; None when it does not have that form"""
    ctx = R.ctx
    if ctx.known_le0(lsub(Lin(18), ctx.blen(m))) is not True:
        return None
    h = R.sl(m, 0, 1)
    if not R.is_(h, b"\x06"):
        return None
    return R.sl(m, 1, 2), R.sl(m, 2, ctx.blen(m))


def as_box(R, c):
    """(plain, nonce, key) when c is exactly one authenticated ciphertext made by the party"""
    a = R.T.atom_of(c)
    if a is not None and a[0] == "box":
        return a[1], a[2], a[3]
    return None


class Wire:
    """Pipe between two parties, each running as a coroutine that is resumed in turn"""

    def __init__(self, R, prefix=""):
        self.R = R
        self.prefix = prefix
        self.q = {"client": [], "server": []}      # inbox
        self.gen = {}
        self.chan = {}

    def end(self, me, peer):
        R = self.R

        def src():
            spins = 0
            while not self.q[me]:
                g = self.gen.get(me)
                spins += 1
                if g is None or spins > 2:
                    R.I.event("blockedread", me)
                    raise Blocked()
                sv = R.I.models.running
                g.yield_(None)
                R.I.models.running = sv
            return self.q[me].pop(0)

        def deliver(ch):
            ms, last, e = ch.writes[-1]
            self.q[peer].extend(ms)
        c = Chan(R, self.prefix + me, src, on_write=deliver)
        self.chan[me] = c
        return c

    def run(self, thunks, order=("client", "server")):
        """run the parties alternately; returns {party: outcome}"""
        R = self.R
        res = {}
        for p in order:
            if p not in thunks:
                continue

            def body(g, p=p):
                return thunks[p]()
            self.gen[p] = Gen(R.I, body, p)
        idle = 0
        while len(res) < len(self.gen) and idle < 4:
            idle += 1
            for p, g in list(self.gen.items()):
                if p in res:
                    continue
                before = len(R.I.events)
                R.I.models.running = []
                try:
                    m = g.resume("send", None)
                    if m[0] == "end":
                        res[p] = m[1]
                except PyExc as e:
                    res[p] = ("exc", R.I.fix_exc(e).obj)
                except Blocked:
                    res[p] = ("blocked", None)
                if p in res or len(R.I.events) > before:
                    idle = 0
        self.gen = {}
        return res
