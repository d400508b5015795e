#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts are reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
CS, SS = "saltchannel/v2/salt_client_session.py", "saltchannel/v2/salt_server_session.py"
EC, AC = "saltchannel/v2/encrypted_channel_v2.py", "saltchannel/v2/app_channel_v2.py"
PK, UP, AP = "saltchannel/v2/packets.py", "saltchannel/util/packets.py", "saltchannel/a1a2/packets.py"
CH, SL = "saltchannel/channel.py", "saltchannel/saltlib/saltlib.py"
NOTEST = "No test covers sessions or channels at all (the stable tests only build and parse packets); "

p("C01", "Client handshake succeeds only with a server that proved its key",
  "A client handshake call returns normally only if a signature by the server key contained in the received M3 was verified over the server prefix 'SC-SIG01' followed by the SHA-512 hashes of exactly the M1 bytes the client sent and the M2 bytes it received. In every other case the call raises, and the client sends nothing beyond M1 (in particular neither its public signature key nor its own signature) before that verification has succeeded.",
  ["inputs", "configurations"], "every byte string the peer sends as M2 and M3, every buffering/pinning configuration",
  NOTEST + "and no finite set of peers can show that no other byte string is accepted.",
  [CS, SL], [("server signature check before M4", CS + ": SaltClientSession.handshake / validate_signature1")],
  [("m1_hash, m2_hash", "transcript hashes of the exact wire bytes", CS)], ["clear channel", "handshake() outcome"])
p("C02", "Server handshake succeeds only with a client that proved its key",
  "A server handshake call that leads to an application channel returns normally only if a signature by the client key contained in the received M4 was verified over the client prefix 'SC-SIG02' followed by the SHA-512 hashes of exactly the M1 bytes received and the M2 bytes sent. In every other case the call raises, and the client identity the session reports afterwards is the verified key, or none if the handshake did not succeed.",
  ["inputs", "configurations"], "every byte string the peer sends as M1 and M4, every buffering configuration",
  NOTEST + "the accepting set of M4 messages is unbounded.",
  [SS, SL], [("client signature check", SS + ": SaltServerSession.handshake / validate_signature2")],
  [("client_sig_key", "identity reported to the application", SS)], ["handshake() outcome", "client_sig_key"])
p("C03", "A pinned server key is requested and enforced",
  "If the client application names the server signature key it expects, the M1 it sends carries exactly that key and flags its presence, and the handshake never returns normally with a server whose M3 proves a different key: it raises a bad-peer error before anything beyond M1 is sent. Without a named key, M1 carries none.",
  ["inputs", "configurations"], "every expected key, every key the peer may prove",
  NOTEST + "the pinned-key attribute is never set by any test.",
  [CS], [("wanted server key in M1 and compared with M3", CS + ": SaltClientSession.do_m1 / do_m3")],
  [("wanted_server_sig_key", "key the application expects", CS)], ["clear channel", "handshake() outcome"])
p("C04", "No-such-server requests are refused on both sides",
  "A server that receives an M1 naming a signature key other than its own answers with exactly one M2 flagged no-such-server and last, sends nothing else and raises the no-such-server error; an M1 naming its own key or none is never refused this way. A client that receives an M2 flagged no-such-server always raises the no-such-server error and sends nothing more.",
  ["inputs", "configurations"], "every requested key, every M1/M2 content",
  NOTEST + "tests only build the packets.",
  [SS, CS, PK], [("requested key compared with own key", SS + ": SaltServerSession.do_m1"), ("NoSuchServer reaction", CS + ": SaltClientSession.do_m2"), ("LastFlag implied", PK + ": M2Packet.__bytes__")],
  observe=["clear channel", "handshake() outcome"])
p("C05", "An honest peer is always accepted: both sides sign the same transcript",
  "In every buffering and pinning configuration, the M3 a server sends carries its own public signature key and a 64-byte signature made with its own secret key over 'SC-SIG01' and the hashes of the M1 and M2 bytes that are on the wire, and the M4 a client sends does the same with its own keys and 'SC-SIG02'. Hence a handshake between an honest client and an honest server that each follow the protocol always completes on both sides.",
  ["configurations", "inputs"], "all keys, clock values, buffering and pinning configurations",
  NOTEST + "the two endpoints' transcripts are compared by nothing.",
  [CS, SS, PK], [("M3 construction", SS + ": SaltServerSession.do_m3"), ("M4 construction", CS + ": SaltClientSession.do_m4"), ("prefix constants", PK + ": SIG1_PREFIX, SIG2_PREFIX")],
  observe=["clear channel"])
p("C06", "Both peers derive the session key from the exchanged ephemeral keys",
  "The M1/M2 a peer sends carries its own ephemeral public key, and the symmetric key used for every message after M2 is the key agreement of its own ephemeral secret key with the ephemeral public key contained in the other peer's M1/M2, so both ends of a session use the same key and no other input determines it.",
  ["inputs", "configurations", "histories"], "all key pairs and received keys",
  NOTEST + "the key agreement call is only tested in isolation.",
  [CS, SS, SL], [("key derivation", CS + " / " + SS + ": create_encrypted_channel"), ("argument order", SL + ": SaltLib.compute_shared_key")],
  [("session_key", "shared symmetric key", CS)], ["clear channel ciphertexts"])
p("C07", "An encryption nonce is never used twice under a session key",
  "The n-th message a client encrypts in a session uses the 24-byte nonce with the 64-bit little-endian counter 2n-1 and a server's n-th message uses 2n, the remaining bytes being the session nonce and zeros; handshake and application messages, single or several per call, share one counter per direction. The counter has moved on before the ciphertext is handed to the transport, so not even a failing or concurrent write makes two messages share a nonce.",
  ["histories", "schedules", "fault_sequences"], "every sequence of writes of any length and arity, every failing write",
  NOTEST + "uniqueness over unbounded histories cannot be sampled.",
  [EC, SS, AC], [("nonce counter", EC + ": Nonce.advance, EncryptedChannelV2.write"), ("M3 encrypted outside write", SS + ": SaltServerSession.do_m3")],
  [("write_nonce.value", "per-direction counter", EC)], ["ciphertexts on the underlying channel"])
p("C08", "Only authentic data in the original order is delivered",
  "Data read from the encrypted channel is the plaintext of a message that authenticates under the session key with exactly the next expected nonce of the opposite direction (client expects 2, 4, 6, ..., server expects 1, 3, 5, ...), and each delivered message advances that expectation by one step. A forged, replayed, reordered or dropped message makes the read raise a bad-peer error and deliver nothing.",
  ["inputs", "histories"], "every packet sequence an attacker can inject, any number of messages",
  NOTEST + "attack sequences are unbounded.",
  [EC], [("read nonce", EC + ": EncryptedChannelV2.read, decrypt"), ("error translation", EC + ": EncryptedChannelV2.decrypt")],
  [("read_nonce.value", "next expected counter", EC)], ["EncryptedChannelV2.read result"])
p("C09", "After M2 only ciphertext leaves a peer, and secrets never do",
  "Every message a session hands to the underlying channel after M2 is an encrypted packet whose body is the authenticated encryption of the M3, M4 or application packet under the session key. Private keys, the session key and not-yet-encrypted application data are never part of bytes given to the underlying channel, of log records, or of the text of exceptions raised by the session and channel classes.",
  ["inputs", "configurations", "fault_sequences"], "all keys, messages, failures",
  NOTEST + "absence of a leak on every path, error paths included, cannot be sampled.",
  [CS, SS, EC, AC, CH], [("wrap(encrypt(..)) on every write", EC + ": EncryptedChannelV2.write")],
  observe=["clear channel", "log calls", "exception arguments"])
p("C10", "Application messages arrive complete, unmodified and in order",
  "For every sequence of application write calls with any number and size of messages (empty ones and any bytes-like objects included), the peer's successive reads return exactly these messages, one per read, byte for byte, in the order written, none lost, duplicated, merged or split. Messages that do not fit a combined packet's 16-bit count or length fields travel as individual packets.",
  ["inputs", "histories"], "all message contents, lengths and arities",
  "Tests serialise one hand-picked list of five short messages; no test drives the application channel, and 16-bit overflow needs sizes no test uses.",
  [AC, PK], [("packing decision", PK + ": MultiAppPacket.should_use"), ("receive queue", AC + ": AppChannelV2.read"), ("packet building", AC + ": AppChannelV2.write")],
  [("readQ", "messages of a combined packet not yet read", AC)], ["AppChannelV2.read results"])
p("C11", "The last flag marks exactly the final packet and is reported to the reader",
  "When a write is marked last, the last flag is set on the wire in exactly the final packet produced by that call and in no other; a write not marked last sets it nowhere. After a read, the receiving application sees the last flag of the packet that was received most recently.",
  ["inputs", "configurations"], "every arity, every buffering configuration, both flag values",
  NOTEST + "tests set the flag bit by hand.",
  [EC, AC], [("flag on final message only", EC + ": EncryptedChannelV2.write, wrap"), ("flag reported", EC + ": unwrap; " + AC + ": last")],
  [("last_flag", "flag of the packet unwrapped last", EC)], ["clear channel", "AppChannelV2.last"])
p("C12", "Buffered handshake messages are sent exactly once and in protocol order",
  "In every combination of the M2- and M4-buffering options the bytes a peer sends form the protocol sequence: a server sends M2 then M3, a client M1 then M4 then application data, each exactly once, with no application data ahead of M4. A buffered M2 goes out together with M3, and a buffered M4 goes out together with, and before, the first application message.",
  ["configurations", "histories"], "all buffering options, any later sequence of writes",
  NOTEST + "buffering is only used in example programs.",
  [CS, SS, AC], [("buffered M4", AC + ": AppChannelV2.write"), ("buffered M2", SS + ": SaltServerSession.do_m2, do_m3")],
  [("buffered_m4", "M4 waiting for the first application write", AC)], ["clear channel"])
p("C13", "Packets have the specified wire layout and survive a round trip",
  "Each packet type serialises to the byte layout of the Salt Channel v2 specification (field order, sizes, little-endian integers, flag bit positions, protocol indicator, type codes) for all field values. Parsing the serialised bytes yields the same field values again, and serialising a parsed well-formed packet yields the same bytes.",
  ["inputs"], "all field values",
  "Tests compare a few fixed dumps; other values, absent/present optional fields and long fields are not reached.",
  [PK, AP, UP], [("ctypes layouts", PK + " / " + AP + ": _fields_"), ("generic (de)serialisation", UP + ": SmartStructure, Packet")],
  observe=["bytes(packet)", "packet fields"])
p("C14", "Malformed packets are rejected with a bad-peer error",
  "Parsing any byte string as a packet either raises the bad-peer error or yields a packet whose type code, protocol indicator, length, counts, address and protocol strings are consistent with its specification. Truncated (including empty) input, a wrong type, a count or length field that disagrees with the data, and illegal protocol strings are never accepted, and no other kind of exception and no out-of-bounds memory access results.",
  ["inputs"], "every byte string",
  "Tests try three malformed inputs; the space of byte strings is unbounded.",
  [PK, AP, UP], [("validate methods", PK + " / " + AP + ": validate"), ("bounded copy", UP + ": SmartStructure.from_bytes")],
  observe=["packet constructors"])
p("C15", "A misbehaving peer can only cause channel exceptions",
  "Whatever bytes a peer sends during the handshake, the address/protocol query, or on the application channel, the reading call either succeeds or raises an exception of the library's communication-error family (bad peer, no such server, time). No other kind of exception escapes because of received data.",
  ["inputs", "histories"], "every sequence of received byte strings",
  NOTEST + "arbitrary peer input is unbounded.",
  [CS, SS, EC, AC, PK, AP, "saltchannel/util/time.py", "saltchannel/a1a2/a1_client_session.py"],
  [("error translation", EC + ": decrypt; " + CS + ": validate_signature1"), ("first-time check", "saltchannel/util/time.py: NullTimeChecker.report_first_time")],
  observe=["exceptions of handshake(), read(), do_a1a2()"])
p("C16", "Stream transports frame messages exactly, under any fragmentation",
  "Each message is written to a stream transport as its 4-byte little-endian length followed by its bytes, several messages of one call in order, and a reader returns exactly one such message per read no matter how the stream is split into chunks, never consuming bytes of the following message.",
  ["inputs", "schedules"], "all message sizes and all fragmentations of the byte stream",
  NOTEST + "fragmentation depends on the network.",
  [CH, "saltchannel/dev/client_server_a.py"], [("length prefix", CH + ": SocketChannel.write_sync, read_sync, recvall"), ("asyncio framing", "saltchannel/dev/client_server_a.py: SaltChannelStreamReader/Writer")],
  observe=["socket/stream calls", "read results"])
p("C17", "Transport failures surface as communication errors, never as data",
  "If the underlying socket or stream fails or ends before a complete message has been transferred, the read or write call raises a communication error; it never returns a partial message, never reports success, and no other kind of exception escapes.",
  ["fault_sequences", "crash_points"], "a failure or end of stream at every transport operation",
  NOTEST + "faults at each operation are not injected anywhere.",
  [CH], [("error wrapping", CH + ": SocketChannel.read_sync, write_sync, recvall; AsyncioChannel")],
  observe=["exceptions of read/write"])
p("C18", "Every message is time-stamped and every received time stamp is checked",
  "Every M1, M2, M3, M4 and application packet a peer sends carries a time obtained from its time keeper for that message (the first time for M1 and M2, and for a buffered M4 the time of the moment it is actually sent). The time of every received packet is given to the time checker, and if the checker refuses, the error reaches the caller and neither is the handshake completed nor the packet's data delivered. The default time checker refuses a first time other than 0 and 1.",
  ["inputs", "histories", "configurations"], "all clock values and checker verdicts",
  NOTEST + "only the always-accepting null clock exists.",
  [CS, SS, AC, "saltchannel/util/time.py"], [("time fields", CS + " / " + SS + " / " + AC)],
  observe=["time keeper/checker calls", "clear channel"])
p("C19", "Every crypto back end rejects forgeries and reports library failures",
  "For each selectable crypto back end, opening a signed message or a ciphertext that the underlying library rejects raises the bad-signature or bad-ciphertext error and returns no data, any other library failure raises, and wrong-length key material for key generation is refused. On success all back ends return the same result for the same arguments, with no buffer smaller than what the library writes.",
  ["inputs", "configurations", "fault_sequences"], "every argument and every library return code, for each back end",
  "The saltlib tests cannot run here (dependency missing), and they flip one byte of one message.",
  ["saltchannel/saltlib/saltlib_native.py", "saltchannel/saltlib/saltlib_pynacl.py", "saltchannel/saltlib/saltlib_tweetnaclext.py", "saltchannel/saltlib/saltlib_base.py"],
  [("return code checks", "saltchannel/saltlib/saltlib_native.py: wrap, crypto_*"), ("exception translation", "saltchannel/saltlib/saltlib_pynacl.py / saltlib_tweetnaclext.py")],
  observe=["back end calls"])
p("C20", "Crypto back end selection honours availability and the caller's choice",
  "Asking for the best crypto back end returns the first available one in the order native, PyNaCl, tweetnacl extension, and fails with the no-such-library error only if none is available. Asking for a specific back end returns that one, or fails with the no-such-library error if it is not available. The answer does not depend on what was asked for before (only the facade object, of which there is one per process, keeps the back end it was created with).",
  ["configurations"], "every combination of available back ends and requested type",
  "The installed combination is the only one a test run can see.",
  [SL], [("selection", SL + ": SaltLib.getLib")], observe=["SaltLib.getLib", "SaltLib()"])
p("C21", "The crypto facade computes keys, signatures and ciphers as requested",
  "Generated key pairs take their complete secret seed (32 bytes) fresh from the operating system's random source by default, or from the back end's random source when that is selected, and pair it with the public key belonging to that secret. Signing, verifying, encrypting, decrypting, hashing and key agreement apply the back end's operation to exactly the caller's message, nonce and keys, and key agreement refuses keys of wrong length.",
  ["inputs", "configurations"], "all arguments, both random sources",
  "The saltlib tests cannot run here and use fixed keys.",
  [SL, "saltchannel/util/key_pair.py", "saltchannel/saltlib/saltlib_native.py"], [("key creation", SL + ": SaltLib.create_*_keys*"), ("facade", SL + ": SaltLib.sign, sign_open, encrypt, decrypt, sha512, compute_shared_key")],
  observe=["SaltLib methods"])
p("C22", "The synchronous API behaves exactly like the asynchronous one",
  "Every public coroutine of the session and channel classes has a synchronous counterpart with the same arguments that performs the same transport operations in the same order and returns the same result or raises the same error. The synchronous calls of a session and of its channels run on the event loop given to the session and also work in a thread that has no event loop yet.",
  ["programs", "configurations"], "every API call of every session and channel class",
  "No test calls either API; a silently inherited no-op counterpart returns without error.",
  ["saltchannel/util/__init__.py", CH, EC, AC, CS, SS, "saltchannel/a1a2/a1_client_session.py", "saltchannel/dev/mitm_channel.py"],
  [("sync method generation", "saltchannel/util/__init__.py: Syncizer"), ("event loop creation", "saltchannel/util/__init__.py: force_event_loop")],
  observe=["*_sync methods"])
p("C23", "Address/protocol queries are answered correctly and end the session",
  "A server whose first received message is a valid A1 instead of an M1 sends exactly one A2, marked last, and starts no key exchange: the A2 says no-such-server exactly when the A1 addresses a public key other than the server's own, and otherwise is the application's configured answer or the default protocol list. The session then reports that it is done.",
  ["inputs", "configurations"], "every A1 content, with and without a configured answer",
  NOTEST + "tests only build the packets.",
  [SS, AP, "saltchannel/a1a2/a1_client_session.py"], [("A1 dispatch", SS + ": SaltServerSession.handshake, do_a2")],
  [("is_done", "session ended by A1/A2 exchange", SS)], ["clear channel", "is_done"])
p("C24", "Concurrent tasks cannot interleave within a secured message exchange",
  "Between taking a nonce for a message and placing the resulting ciphertext on the stream transport there is no point at which another task can run, and likewise none between receiving a packet and advancing the expected read nonce. Hence with any number of tasks writing to one channel the order of packets on the wire is the order of their nonces, and the packets of one write call stay together.",
  ["schedules"], "every interleaving of tasks at suspension points",
  NOTEST + "schedules are not explored by any test.",
  [EC, AC, CH, "saltchannel/dev/client_server_a.py"], [("encrypt-then-send without suspension", EC + ": EncryptedChannelV2.write, read; " + CH + ": AsyncioChannel.write")],
  observe=["suspension points", "stream writes"])
p("C25", "The logging channel decorator is transparent",
  "The man-in-the-middle logging channel passes every message, in order and unchanged, and the last marker to the wrapped channel, returns exactly what the wrapped channel returned, lets its errors through, and counts exactly the bytes transferred, whether or not logging is enabled.",
  ["inputs", "configurations"], "all messages, with and without a logger, sync and async",
  NOTEST + "the decorator is only used in example programs.",
  ["saltchannel/dev/mitm_channel.py"], [("forwarding", "saltchannel/dev/mitm_channel.py: MitmChannel.read, write, read_sync, write_sync")],
  [("counter_read, counter_write", "bytes transferred", "saltchannel/dev/mitm_channel.py")], ["wrapped channel calls"])
p("C26", "The pure-Python NaCl computes the reference results",
  "Every function of the bundled pure-Python NaCl returns the same bytes as the reference NaCl for all inputs.",
  ["inputs"], "all inputs", "Field and curve arithmetic over all inputs.",
  ["saltchannel/saltlib/pure_pynacl/tweetnacl.py"], [("port of TweetNaCl", "saltchannel/saltlib/pure_pynacl/tweetnacl.py")])
p("C27", "Secret-dependent operations take constant time",
  "The time taken by signing, key agreement, encryption and tag verification does not depend on secret data.",
  ["inputs"], "all secrets", "Timing is not observed by functional tests.",
  ["saltchannel/saltlib/saltlib.py", "saltchannel/saltlib/pure_pynacl/tweetnacl.py"], [("back end libraries", "external")])
p("C28", "Handshake and echo sessions between live peers terminate",
  "Between two live peers over a working transport every handshake and every request/response exchange completes in bounded time under every schedule.",
  ["schedules"], "all schedules", "Liveness needs all schedules.",
  [CS, SS, CH], [("asyncio / blocking sockets", CH)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
