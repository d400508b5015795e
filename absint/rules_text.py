"""Per-property rule texts for evidence and manifest."""
ASSUME = ["the models of the Python built-ins, ctypes, asyncio, socket, struct and the NaCl libraries in absint/ (listed in DESIGN.md) describe them correctly",
          "ideal cryptography: a verification or decryption outcome is an unknown truth value that is the same for the same arguments; ciphertexts, hashes, signatures and keys are free terms",
          "loops whose trip count the state does not determine are followed up to the unrolling bound given in the evidence"]
NA = {
    "C26": "Equality of field arithmetic, hashes and curve operations with the reference for all inputs is a numerical fact; no sound static argument in reach bounds it (and the back end is unfinished and not selectable).",
    "C27": "Timing depends on the interpreter, ctypes and the compiled NaCl libraries, none of which is visible in the Python source; a source-level rule could not show it.",
    "C28": "A liveness property over the schedules of two processes and a network; needs fairness and a model of the environment, not decidable from the source by a sound static rule.",
}
TEXT = {
 "C01": {"rule": "On every trace partition of SaltClientSession.handshake (arbitrary M2, M3; all buffering/pinning options; sync and async) a normal return is preceded by a successful signature verification whose signature, message and key are the terms M3[38:102], 'SC-SIG01'||H(sent M1)||H(received M2), M3[6:38]; before that event the channel has seen only the M1 write; M4 bytes derive from no other state."},
 "C02": {"rule": "On every trace partition of SaltServerSession.handshake ending with an application channel, a successful verification of M4[38:102] over 'SC-SIG02'||H(received M1)||H(sent M2) with key M4[6:38] precedes the return; client_sig_key is that key, and None on every other partition."},
 "C03": {"rule": "With a pinned key the M1 term ends with that key and the flag bit is the constant 1, and every normal return has the fact pinned == M3[6:38]; on the unequal partition the outcome is BadPeer and the channel saw only M1."},
 "C04": {"rule": "For every M1 the partitions are split by 'names a key' and 'key == own'; exactly the unequal one writes one M2 (flags 0x81, last) and raises NoSuchServerException. Client side: flag bit set in M2 implies NoSuchServerException and no further write."},
 "C05": {"rule": "The M3/M4 terms contain the own public key and sig(own secret, prefix||H(M1)||H(M2)) for the wire bytes of M1 and M2; a two-party abstract run of client and server over an abstract pipe ends with a normal return on both sides in every configuration (all partitions)."},
 "C06": {"rule": "Every box/open effect after M2 uses the key term dh(own ephemeral secret, peer ephemeral public key as received); the M1/M2 terms carry the own ephemeral public key."},
 "C07": {"rule": "The nonce terms of all box effects of a session form the sequence LE8(2n-1 or 2n)||session nonce||zeros over handshake and several application writes, including failing transport writes; the counter cell is advanced before the transport write effect."},
 "C08": {"rule": "Every delivered value is the plaintext of an open effect with the expected next nonce and session key, and the expectation advances only by one step with a delivery; otherwise BadPeer and no value."},
 "C09": {"rule": "Taint/provenance: after M2 every message given to the clear channel is 0x06||flags||box(...) under the session key; no secret term or unencrypted application data occurs in any write, log, print effect or in the arguments of a raised exception."},
 "C10": {"rule": "The list of plaintexts produced by write calls with an arbitrary number and size of messages, parsed by the reading code of the peer, yields exactly these messages in order; field-width (16 bit) obligations on the combined packet's count and lengths."},
 "C11": {"rule": "The last-flag bit of each packet a call writes is the constant 1 exactly for the final packet of a call marked last; after a read the flag reported equals bit 7 of the flags byte of the packet received most recently."},
 "C12": {"rule": "Typestate over write effects: server M2 then M3, client M1, M4, application data, each exactly once, in every combination of buffering options; buffered M2 in the same write call as M3, buffered M4 first in the first application write."},
 "C13": {"rule": "Serialising a packet with symbolic field values gives the specified byte term, parsing that term gives the same field terms, and serialising any accepted well-formed input gives the input term back."},
 "C14": {"rule": "For an arbitrary byte string of arbitrary length, each packet constructor / from_bytes either raises BadPeer or ends in a state whose collected facts imply the specification (type, length, counts, character classes decided on the regular language); any other exception or out-of-bounds ctypes access is reported."},
 "C15": {"rule": "For arbitrary received messages, the exception that leaves handshake(), do_a1a2() and the application read is a subclass of ComException on every trace partition, with the ideal and with the real back-end code."},
 "C16": {"rule": "With an arbitrary byte stream delivered in arbitrary chunks, a read that returns returns exactly stream[p+4:p+4+L] and has consumed exactly up to p+4+L; a write hands LE4(len)||message for every message, in order, to the stream."},
 "C17": {"rule": "With a transport that may end or fail at every operation, every such partition ends in ComException (or a subclass), never in a return and never in another exception."},
 "C18": {"rule": "Provenance of the time fields of every sent packet (value of the specified time keeper call, for that message) and data flow from the time fields of every received packet into the time checker before completion/delivery; a refusal reaches the caller and nothing is delivered or completed."},
 "C19": {"rule": "Each back-end method is interpreted over a model of the C/Python library with an unknown return code and bounded output buffers: failure implies the documented exception, success returns the specified term; no out-of-bounds write."},
 "C20": {"rule": "With availability of each back end an unknown predicate, SaltLib/getLib returns the first available in the order native, PyNaCl, tweetnacl extension, or the requested one, and raises NoSuchLibException exactly otherwise."},
 "C21": {"rule": "The facade's results are the specified crypto terms of the caller's arguments; seeds are 32-byte fresh random terms of the selected source."},
 "C22": {"rule": "Every public coroutine has a synchronous counterpart; the asynchronous and synchronous calls on equal symbolic inputs yield equal effect traces and outcomes; all loop-run effects use the session's loop; no partition fails without a current event loop."},
 "C23": {"rule": "For an arbitrary first message that is a valid A1, the write effects of the server are exactly one A2 with the specified term, marked last; no key agreement, encryption or further read; is_done is true."},
 "C24": {"rule": "Over the full stack no suspension point (await of a possibly suspending primitive, task creation or thread hand-over) lies between a box effect and the stream write of its ciphertext, nor between the last stream read and the corresponding advance of the expected nonce."},
 "C25": {"rule": "For arbitrary messages, channel outcomes and logging configurations the wrapped channel sees the same writes and last marker, the caller sees the same result or exception, and the counters equal the byte totals."},
}
