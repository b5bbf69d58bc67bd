"""The properties: titles, statements, anchors.  tools/gen.py writes properties.jsonl and MANIFEST.json from this."""
P = {}
S = "spdmlib/src/"


def p(pid, title, statement, over, text, why, files, mech, state=(), note="", technique=None):
    P[pid] = dict(id=pid, title=title, statement=statement, over=over, text=text, why=why,
                  files=[f if "/" in f and not f.startswith(("common", "responder", "requester", "protocol", "message", "crypto", "time")) else S + f for f in files],
                  mech=mech, state=list(state), note=note, technique=technique)


MSG = ["inputs", "histories", "configurations"]
DF = "interprocedural path-sensitive abstract interpretation of rustc MIR (dataflow/typestate rule over all paths)"

p("C01", "Responder establishes a session only for an authenticated requester",
  "A responder's session becomes Established only after it has verified the requester's FINISH or PSK_FINISH HMAC with that session's requester finished key, and only once its own final "
  "response has been sent. If mutual authentication was asked for in that session, the requester's FINISH signature must also have been verified with the requester's certificate chain. "
  "The only exception is a PSK session without responder context, which is Established by the PSK exchange itself.",
  MSG, "every sequence of received packets (well-formed, malformed, out of order), every outcome of every cryptographic, transport and device call, with and without mutual authentication",
  "unit tests drive a handful of happy handshakes with mock crypto; they cannot show that no path reaches Established without a verification",
  ["responder/finish_rsp.rs", "responder/psk_finish_rsp.rs", "responder/context.rs", "responder/psk_exchange_rsp.rs", "common/session.rs"],
  [("HMAC verification of FINISH", S + "responder/finish_rsp.rs: write_spdm_finish_response"), ("HMAC verification of PSK_FINISH", S + "responder/psk_finish_rsp.rs"),
   ("state change after the response is sent", S + "responder/context.rs: send_message / send_secured_message")],
  [("session_state", "NotStarted / Handshaking / Established", S + "common/session.rs")])

p("C02", "Requester finishes a handshake step only after authenticating the responder",
  "A requester's KEY_EXCHANGE succeeds only if the responder's signature verified with the certificate chain stored for the requested slot and, unless both sides negotiated handshake-in-the-clear, "
  "the responder's HMAC verified with the session's responder finished key; a PSK_EXCHANGE succeeds only if that HMAC verified. A FINISH or PSK_FINISH succeeds only on a response that was authenticated: "
  "by its HMAC in the clear, by the session's record protection otherwise. The session enters Handshaking or Established only on those paths.",
  MSG, "every response the peer can send, every outcome of every cryptographic and device call, both handshake modes",
  "the tests replay one canned response per message with mock crypto whose verification always succeeds",
  ["requester/key_exchange_req.rs", "requester/psk_exchange_req.rs", "requester/finish_req.rs", "requester/psk_finish_req.rs", "requester/context.rs"],
  [("signature and HMAC verification", S + "requester/key_exchange_req.rs: handle_spdm_key_exhcange_response"), ("HMAC verification", S + "requester/psk_exchange_req.rs"),
   ("FINISH_RSP HMAC", S + "requester/finish_req.rs"), ("secured receive", S + "requester/context.rs: receive_secured_message")],
  [("session_state", "NotStarted / Handshaking / Established", S + "common/session.rs")])

p("C03", "A successful CHALLENGE proves the responder's identity",
  "A requester's CHALLENGE returns success only if the signature in the received CHALLENGE_AUTH verified with the certificate chain stored for the challenged slot.",
  MSG, "every CHALLENGE_AUTH response and every outcome of the verification callback", "tests sample one response with a mock verifier that accepts",
  ["requester/challenge_req.rs"], [("signature verification", S + "requester/challenge_req.rs: handle_spdm_challenge_response, verify_challenge_auth_signature")])

p("C04", "Requested measurement signatures are verified before measurements are accepted",
  "When a requester asks for signed measurements, the operation returns success only if the signature in the received MEASUREMENTS response verified with the certificate chain stored for the given slot. "
  "Only when no signature was asked for may it succeed without one.",
  MSG, "every MEASUREMENTS response, both request attribute settings, every outcome of the verification callback", "tests sample few responses with a mock verifier that accepts",
  ["requester/get_measurements_req.rs"], [("signature verification", S + "requester/get_measurements_req.rs: handle_spdm_measurement_record_response")])

p("C07", "The responder serves each request only in the channel and state it belongs to",
  "Every response other than ERROR is produced only in its channel (in the clear, in a handshaking session, in an established session) and connection state: CAPABILITIES only directly after VERSION, "
  "ALGORITHMS only directly after CAPABILITIES, and digests, certificates, challenges, measurements and key exchanges in the clear only once algorithms are negotiated. HEARTBEAT, KEY_UPDATE and END_SESSION "
  "are served only in an established session; FINISH and PSK_FINISH only for a session in handshake, FINISH in the clear only if both sides negotiated that. Except for VERSION and CAPABILITIES, the request's "
  "SPDM version must be the negotiated one.",
  MSG, "every sequence of received packets in every connection and session state", "tests set up one state per message; they cannot enumerate all state / channel / message combinations",
  ["responder/context.rs", "responder/version_rsp.rs", "responder/capability_rsp.rs", "responder/algorithm_rsp.rs", "responder/digest_rsp.rs", "responder/key_exchange_rsp.rs", "responder/finish_rsp.rs"],
  [("dispatch tables", S + "responder/context.rs: dispatch_message, dispatch_secured_message"), ("connection state checks", S + "responder/*_rsp.rs")],
  [("connection_state", "progress of VERSION / CAPABILITIES / ALGORITHMS", S + "common/mod.rs"), ("session_state", "progress of the session handshake", S + "common/session.rs")])

p("C08", "At most one matching response per received message, in the same channel",
  "While processing one received message the responder sends at most one message. That message is ERROR or the response belonging to the received request code, and it is sent in the channel the request came in: "
  "the same session for a secured message, in the clear otherwise.",
  MSG, "every received packet in every state, every outcome of every internal step", "tests check the happy response of a few requests",
  ["responder/context.rs", "responder/error_rsp.rs"], [("process_message", S + "responder/context.rs"), ("dispatch tables", S + "responder/context.rs: dispatch_message, dispatch_secured_message")])

p("C12", "Application data is accepted and answered only in an established session",
  "The responder hands received application data to the application, and sends application data back, only for a session that is Established and whose record was successfully decrypted and authenticated.",
  MSG, "every received packet in every session state", "tests exercise one established session",
  ["responder/context.rs", "responder/app_message_handler.rs"], [("dispatch of application messages", S + "responder/context.rs: process_message, dispatch_secured_app_message")])

p("C09", "Responses carry a genuine signature and HMAC where the protocol demands one",
  "Every CHALLENGE_AUTH, KEY_EXCHANGE_RSP and (if a signature was requested) MEASUREMENTS message the responder sends ends with a signature that its signer produced successfully, and every KEY_EXCHANGE_RSP, "
  "PSK_EXCHANGE_RSP and in-the-clear FINISH_RSP ends with an HMAC successfully computed with that session's responder finished key. Only a KEY_EXCHANGE_RSP whose handshake is in the clear, and a FINISH_RSP "
  "sent inside a session, come without the HMAC. Both fields lie at the very end of the message and nothing is changed or appended afterwards; the signature uses the negotiated hash and signature algorithms.",
  MSG, "every request, every negotiated algorithm, every outcome of the signing and HMAC callbacks", "tests use one algorithm suite and a mock signer that always succeeds",
  ["responder/challenge_rsp.rs", "responder/measurement_rsp.rs", "responder/key_exchange_rsp.rs", "responder/psk_exchange_rsp.rs", "responder/finish_rsp.rs"],
  [("signature generation and patching", S + "responder/challenge_rsp.rs, measurement_rsp.rs, key_exchange_rsp.rs"), ("HMAC generation and patching", S + "responder/key_exchange_rsp.rs, psk_exchange_rsp.rs, finish_rsp.rs")])

p("C10", "Nonces, random data and key exchange shares are fresh in every message",
  "Every nonce (CHALLENGE, CHALLENGE_AUTH, GET_MEASUREMENTS asking for a signature, MEASUREMENTS), every random field (KEY_EXCHANGE, KEY_EXCHANGE_RSP) and every PSK context (PSK_EXCHANGE, PSK_EXCHANGE_RSP) that is sent consists entirely of "
  "bytes drawn from the random generator for this message by a call that reported success, and every key exchange share sent is the public half of a key pair generated for this message in the negotiated group. "
  "If randomness or the key pair cannot be had, the message is not sent. Only PSK_EXCHANGE_RSP may carry an empty context, when the responder negotiated PSK without context.",
  MSG, "every run of every such exchange, every outcome of the random generator and of key generation", "a test sees one value per run; it cannot tell fresh from constant, nor explore generator failures at every site",
  ["responder/challenge_rsp.rs", "responder/measurement_rsp.rs", "responder/key_exchange_rsp.rs", "responder/psk_exchange_rsp.rs", "requester/challenge_req.rs", "requester/get_measurements_req.rs",
   "requester/key_exchange_req.rs", "requester/psk_exchange_req.rs"],
  [("random generation", S + "crypto/mod.rs: rand::get_random"), ("key pair generation", S + "crypto/mod.rs: dhe::generate_key_pair")])

p("C13", "Every secured record is protected and checked with the session's own keys",
  "A record is encrypted or decrypted only in a handshaking or established session, with the AEAD key, IV and sequence number of that phase and of the direction the record travels in, the IV being XORed with "
  "the sequence number. Encryption authenticates the whole header, starting with the session id, and covers length and application data with a full-size tag; decryption demands this session's id, authenticates the whole "
  "received header, and takes ciphertext and tag back to back with a full-size tag. Plaintext, or success, is reported only if the AEAD operation succeeded. Requester and responder each send in their own and receive in their peer's direction.",
  MSG, "every record content and length, every session state, both directions, every AEAD outcome", "tests round-trip a few records with mock AEADs that do not bind key, IV or header",
  ["common/session.rs", "common/mod.rs", "requester/context.rs", "responder/context.rs"],
  [("record encoding", S + "common/session.rs: encode_spdm_secured_message, encode_msg"), ("record decoding", S + "common/session.rs: decode_spdm_secured_message, decode_msg")],
  [("request_direction / response_direction", "AEAD key, IV (salt) and sequence number per direction, one set per phase", S + "common/session.rs")])

p("C14", "A record sequence number is never used twice with the same key",
  "Whenever a record was encrypted, successfully or not, or successfully decrypted, exactly the sequence number of the phase and direction it used has advanced by one. No record is protected with the largest sequence number. "
  "Every other session operation changes a sequence number only together with the AEAD key it counts for.",
  MSG, "every sequence of records and session operations, every failure inside encoding or decoding", "nonce reuse needs specific failures or long histories that tests do not produce",
  ["common/session.rs"], [("sequence numbers", S + "common/session.rs: encode_msg, decode_msg, create_data_secret_update")],
  [("sequence_number", "records protected so far with this key", S + "common/session.rs")])

p("C18", "The key schedule follows the SPDM specification",
  "Every secret is derived by HKDF with the info: output length, the SPDM version text, the specification's label for that secret and, where it has one, the matching transcript hash (TH1 for handshake, TH2 for application secrets), "
  "from the right parent: handshake secret from the DHE shared secret of this exchange's own key pair and the peer's share (or the session's PSK), master secret from the handshake secret, and so on. Each session key field (secrets, finished keys, AEAD "
  "keys and IVs of each direction and phase) receives the derivation of its own direction and phase, with the session's hash and AEAD algorithms and negotiated version; the keys exported to the caller are the application keys, request direction first.",
  ["inputs", "configurations"], "every algorithm combination, both PSK and DHE sessions, every secret and transcript value", "requester and responder share the code, so a symmetric mistake passes every round-trip test",
  ["common/key_schedule.rs", "common/session.rs", "requester/key_exchange_req.rs", "responder/key_exchange_rsp.rs"],
  [("derivations", S + "common/key_schedule.rs: SpdmKeySchedule"), ("use in the session", S + "common/session.rs: set_dhe_secret, generate_handshake_secret, generate_data_secret")])

p("C15", "Key update renews exactly the keys asked for, and both sides agree on it",
  "Updating a direction derives its new application secret from that direction's current secret, derives key and IV from the new secret, restarts its sequence number at 0 and keeps the old secret, key, IV and number for undoing; the other direction "
  "is not touched. Undoing restores exactly the directions named. The responder acknowledges a KEY_UPDATE only after exactly the update its operation asks for (request keys; both; or confirmation of the new request keys) succeeded in the session the "
  "request came in, and mirrors operation and tag. The requester changes keys only after its KEY_UPDATE was sent, for the directions of the operation, and keeps them only after a KEY_UPDATE_ACK; otherwise it undoes the change.",
  MSG, "every operation, every order of updates and failures, every outcome of derivation, transport and decoding", "tests run one successful update; a wrong direction or a missing undo only shows in later traffic or after a lost acknowledgement",
  ["common/session.rs", "responder/key_update_rsp.rs", "requester/key_update_req.rs"],
  [("update and undo", S + "common/session.rs: create_data_secret_update, activate_data_secret_update"), ("message handling", S + "responder/key_update_rsp.rs, " + S + "requester/key_update_req.rs")],
  [("application_secret_backup", "secrets and keys to go back to", S + "common/session.rs")],
  note="A derivation that fails half way through an update of both directions leaves the first direction updated (DESIGN.md).")

p("C19", "Signatures, MACs and keys cover the SPDM transcript of the exchange",
  "What is signed, verified, MACed or bound into keys is, on both sides, the transcript the specification gives for that message: the negotiation messages, for CHALLENGE the digest and certificate exchanges, for measurements the exchanges since the last other "
  "request, for key exchange and FINISH the hash of the responder's certificate chain, the hash of the requester's chain exactly if mutual authentication is in force, then request and response up to the field being computed, each message whole and in order. SPDM 1.2 "
  "signatures cover prefix, padding and context string of that message. Every request starts the transcript buffers over by the same rule on both sides, and the exchange is recorded completely in them.",
  MSG, "every message sequence and content, with hashed and with buffered transcripts, with and without mutual authentication", "requester and responder share most of this code, so a symmetric omission (bytes not covered) passes every interoperability test and is only visible to an attacker",
  ["common/mod.rs", "responder/challenge_rsp.rs", "responder/measurement_rsp.rs", "responder/key_exchange_rsp.rs", "responder/finish_rsp.rs", "responder/psk_exchange_rsp.rs", "responder/psk_finish_rsp.rs", "requester/challenge_req.rs", "requester/get_measurements_req.rs",
   "requester/key_exchange_req.rs", "requester/finish_req.rs", "requester/psk_exchange_req.rs", "requester/psk_finish_req.rs"],
  [("transcript buffers", S + "common/mod.rs: append_message_*, reset_message_*, calc_*_transcript_hash, reset_buffer_via_request_code")],
  [("message_a, message_b, message_c, message_m, message_k, message_f / digest_context_*", "transcript so far", S + "common/mod.rs, " + S + "common/session.rs")])

p("C16", "END_SESSION ends exactly its session and wipes it",
  "Ending a session clears its id, state and every secret, key, sequence number and transcript it held, whatever its state. The responder does so once, and only once, it has sent END_SESSION_ACK in that session (or when the connection starts over); it never resets another session. The requester's "
  "end_session succeeds only after END_SESSION_ACK was received in the session it was sent in, with exactly that session reset; without the acknowledgement the session is kept, unless its records no longer decrypt.",
  MSG, "every session content and state, every response and every outcome of transport and decoding", "tests look at the status code only; key material left behind or a wrong session reset is not observed",
  ["common/session.rs", "responder/context.rs", "responder/end_session_rsp.rs", "requester/end_session_req.rs", "requester/handle_error_response_req.rs"],
  [("reset", S + "common/session.rs: set_default, teardown"), ("end of session", S + "responder/context.rs: send_secured_message, " + S + "requester/end_session_req.rs")],
  [("session_id, session_state, secrets", "one record per session object", S + "common/session.rs")], note="slot_id is not secret and is not reset.")

p("C20", "Sessions get distinct ids in free slots; failed exchanges leave none behind",
  "A key exchange, with or without PSK, sets up a session only in a free session object and under the id made of the half this side allocated and the half the peer sent. Allocated halves differ between live sessions. The responder announces exactly that half id; the requester sent its own in the request and returns "
  "exactly the id it set up. If the exchange is refused, fails, or its response cannot be delivered, the session object is free again; so it is when a later step of start_session fails.",
  MSG, "every failure point of the exchanges, every number of live sessions, every peer half id", "leaks and mix-ups show only after several failed or parallel sessions, which tests do not set up",
  ["responder/key_exchange_rsp.rs", "responder/psk_exchange_rsp.rs", "responder/context.rs", "requester/key_exchange_req.rs", "requester/psk_exchange_req.rs", "requester/context.rs", "common/mod.rs"],
  [("allocation", S + "common/mod.rs: get_next_half_session_id, get_next_avaiable_session"), ("release", S + "common/mod.rs: abort_session, " + S + "common/session.rs: teardown")],
  [("session", "session objects; id 0 marks a free one", S + "common/mod.rs")])

p("C21", "GET_VERSION starts the connection over and state only advances by responses sent",
  "When the responder sends VERSION and when the requester sends GET_VERSION, nothing of an earlier connection is left: negotiated parameters, connection state, transcripts, peer certificates and every session with its secrets are back to their initial values. The responder enters a connection state only "
  "after successfully sending the response that leads to it, and DIGESTS and CERTIFICATE responses never move it back.",
  MSG, "every earlier history of the connection, every outcome of encoding and sending", "tests start from fresh contexts and do not restart a used connection",
  ["common/mod.rs", "responder/version_rsp.rs", "requester/get_version_req.rs", "responder/context.rs"],
  [("reset", S + "common/mod.rs: reset_context"), ("state changes", S + "responder/context.rs: send_message")],
  [("negotiate_info, runtime_info, peer_info, session", "everything learnt on a connection", S + "common/mod.rs")])

p("C11", "Negotiation ends with parameters both sides support, the same on both sides",
  "The requester ends version negotiation with the highest version that it is configured for and the responder lists, or fails; the responder accepts only versions it is configured for. Capabilities sent are the configured ones; each side remembers its own as sent and the peer's as received. "
  "For every algorithm the responder selects one that the request offers and its configuration allows, or nothing if there is none in common; it announces what it puts in force, and never goes on without a common hash. The requester offers its configuration, accepts only selections it offered and requires hash and signature algorithm.",
  MSG, "every pair of configurations, every VERSION, CAPABILITIES and ALGORITHMS message", "tests use two matching configurations and honest peers",
  ["requester/get_version_req.rs", "requester/get_capabilities_req.rs", "requester/negotiate_algorithms_req.rs", "responder/version_rsp.rs", "responder/capability_rsp.rs", "responder/algorithm_rsp.rs", "protocol/algo.rs"],
  [("selection", S + "protocol/algo.rs: prioritize"), ("responder", S + "responder/algorithm_rsp.rs, capability_rsp.rs"), ("requester", S + "requester/negotiate_algorithms_req.rs, get_version_req.rs")],
  [("negotiate_info", "parameters in force", S + "common/mod.rs")])

p("C05", "Peer certificate chains are kept only after verification, under their slot",
  "A certificate chain becomes the peer's chain of slot s, on the requester after GET_CERTIFICATE and on the responder after encapsulated GET_CERTIFICATE, only if all of it was received for slot s, its portions placed one after the other, its length field equals the number of bytes received, the chain verification "
  "primitive accepted the certificates, the root hash in the chain equals the hash of its first certificate, and that certificate equals the provisioned root certificate if there is one. What is kept is the chain that was verified. Otherwise the call fails and kept chains stay as they were.",
  MSG, "every sequence of CERTIFICATE responses and every chain content", "tests use well-formed chains from an honest peer",
  ["requester/get_certificate_req.rs", "responder/encap_get_certificate.rs", "crypto/mod.rs"],
  [("requester", S + "requester/get_certificate_req.rs: send_receive_spdm_certificate, verify_spdm_certificate_chain"), ("responder", S + "responder/encap_get_certificate.rs: handle_encap_response_certificate")],
  [("peer_cert_chain, peer_cert_chain_temp", "kept and incoming chains", S + "common/mod.rs: SpdmPeerInfo")])

p("C06", "A request succeeds only with its own, well-formed response of the same version",
  "A requester call (GET_VERSION, GET_CAPABILITIES, NEGOTIATE_ALGORITHMS, GET_DIGESTS, each GET_CERTIFICATE portion, CHALLENGE, GET_MEASUREMENTS, KEY_EXCHANGE, PSK_EXCHANGE, FINISH, PSK_FINISH, HEARTBEAT, KEY_UPDATE, END_SESSION, VENDOR_DEFINED_REQUEST) returns Ok only if a packet received in answer starts with "
  "the response code that belongs to the request, carries the negotiated protocol version (1.0 for VERSION) and decodes as that response. An ERROR response, another code, another version or an undecodable packet never makes it succeed.",
  MSG, "every response packet, in the clear or in a session", "tests feed the right response, or a single wrong one",
  ["requester/handle_error_response_req.rs", "requester/heartbeat_req.rs", "requester/get_certificate_req.rs", "requester/context.rs"],
  [("response handling", S + "requester/: handle_spdm_*_response"), ("errors", S + "requester/handle_error_response_req.rs")],
  [("negotiate_info.spdm_version_sel", "version in force", S + "common/mod.rs")])

p("C29", "DIGESTS, CERTIFICATE and CHALLENGE_AUTH describe the provisioned chains exactly",
  "DIGESTS, from the responder and from the requester inside the encapsulated exchange, has exactly the bits of the provisioned slots set and carries, in slot order, the digest of each provisioned chain under the negotiated hash algorithm, whatever slots are provisioned. "
  "CERTIFICATE carries, for the slot asked for if it is provisioned, the bytes of that chain from the offset asked for, as many as asked for but not more than a portion may have nor than are left, and states the exact portion and remainder lengths. CHALLENGE_AUTH carries the digest of the chain of the slot that was challenged, and names that slot.",
  MSG, "every set of provisioned slots, every slot, offset and length asked for", "tests provision one chain in slot 0 and ask for a few offsets",
  ["responder/digest_rsp.rs", "responder/certificate_rsp.rs", "responder/challenge_rsp.rs", "requester/encap_digest.rs", "requester/encap_certificate.rs"],
  [("responder", S + "responder/digest_rsp.rs, certificate_rsp.rs, challenge_rsp.rs"), ("requester", S + "requester/encap_digest.rs, encap_certificate.rs")],
  [("provision_info.my_cert_chain", "own certificate chains", S + "common/mod.rs: SpdmProvisionInfo")])

p("C30", "The encapsulated exchange runs only as negotiated and step by step",
  "The responder sends ENCAPSULATED_REQUEST or ENCAPSULATED_RESPONSE_ACK only in a session, with SPDM 1.1 or later, ENCAP_CAP of both sides and the certificate exchange done; its first embedded request is GET_DIGESTS, each further one GET_CERTIFICATE for the chosen slot at the offset reached, it acknowledges the request id it received, and it announces the slot only after the requester's chain was verified and kept. "
  "The requester starts the exchange only with SPDM 1.1 or later and ENCAP_CAP of both sides; acts on ENCAPSULATED_REQUEST and ENCAPSULATED_RESPONSE_ACK only of the negotiated version and well formed; answers embedded GET_DIGESTS and GET_CERTIFICATE of the negotiated version, given CERT_CAP, with DIGESTS and CERTIFICATE, and anything else with ERROR; and takes a slot number from an acknowledgement only if such a slot exists.",
  MSG, "every encapsulated message, every negotiated version and capability", "tests run one exchange with cooperating sides",
  ["responder/encap_rsp.rs", "responder/encap_get_certificate.rs", "requester/encap_req.rs", "requester/encap_digest.rs", "requester/encap_certificate.rs"],
  [("responder", S + "responder/encap_rsp.rs, encap_get_digest.rs, encap_get_certificate.rs"), ("requester", S + "requester/encap_req.rs, encap_digest.rs, encap_certificate.rs")],
  [("encap_context", "the encapsulated exchange", S + "common/mod.rs: SpdmEncapContext")])

p("C27", "MCTP framing is exact and never panics",
  "encap puts in front of a message exactly one byte, MCTP message type 5 for a plain and 6 for a secured SPDM message, encap_app type 1 for application data and 5 otherwise, followed by the unchanged payload, and returns that length; decap and decap_app accept exactly these types, report which of the two it was, and copy out "
  "exactly the bytes after the type byte. They fail, without a panic, only for an empty message, an unknown type or a buffer that cannot hold the result, so that what one side frames the other gets back byte for byte.",
  ["inputs"], "every message of every length, every buffer size, every type byte", "tests frame one message of one length in buffers that are large enough",
  ["mctp_transport/src/header.rs"],
  [("framing", "mctp_transport/src/header.rs: encap, decap, encap_app, decap_app")])

p("C28", "PCI-DOE framing is exact and never panics",
  "encap writes vendor id 0x0001, data object type 1 for a plain and 2 for a secured SPDM message, zero, and the length in dwords as 18 bits (0 for the largest), followed by the unchanged payload, and returns the padded length; decap accepts exactly these vendor and type values and a length field that covers the header and fits the data received, reports whether the message is secured, and copies out "
  "exactly the payload. encap_app and decap_app add and take nothing. They fail, without a panic, only for such malformed input, a message longer than a data object can be, or a buffer that cannot hold the result.",
  ["inputs"], "every message of every length, every buffer size, every header", "tests frame one message of one length in buffers that are large enough",
  ["pcidoe_transport/src/header.rs"],
  [("framing", "pcidoe_transport/src/header.rs: encap, decap, encap_app, decap_app")])

p("C17", "Key material is wiped from memory when it is released",
  "Every value of a type that holds key material is overwritten when it is released: the Diffie-Hellman secret, the handshake, master, data and export master secrets, the finished keys, the AEAD keys and IVs, "
  "what HKDF extracts and expands, and the scrubbed byte buffers. The overwriting covers the whole array that holds the bytes, not only the part in use (of a scrubbed buffer, all the bytes it contains). The session keeps its secrets in values of such types only.",
  ["inputs", "histories"], "every way through each destructor, every value", "what is left in released memory is not visible to a test that uses the public interface",
  ["protocol/algo.rs", "common/session.rs", "crypto/bytes_mut_scrubbed.rs"],
  [("secret types", S + "protocol/algo.rs: create_sensitive_datatype!"), ("session", S + "common/session.rs: SpdmSession and its secret structs"), ("buffers", S + "crypto/bytes_mut_scrubbed.rs: BytesMutStrubbed")],
  note="zeroize is taken to overwrite what it is given. Copies the compiler makes in registers or on the stack are out of reach.")

p("C22", "No SPDM message is larger than the peer declared it can receive",
  "Under SPDM 1.2 each side keeps the data transfer size its peer declared in GET_CAPABILITIES or CAPABILITIES, which is accepted only if it is at least 42 and at most the maximum message size declared with it. "
  "From then on neither side sends an SPDM message, in the clear or inside a secured record, that is longer: the requester refuses to send it, the responder sends ERROR ResponseTooLarge in its place. "
  "(Application data, whose size is the integrator's concern, is not limited this way.)",
  ["inputs", "configurations"], "every declared size, every message of every length", "the tests declare sizes that no message reaches",
  ["requester/context.rs", "responder/context.rs", "message/capability.rs", "requester/get_capabilities_req.rs", "responder/capability_rsp.rs"],
  [("sending", S + "requester/context.rs, responder/context.rs: send_message, send_secured_message"), ("declared", S + "message/capability.rs: spdm_read")])
p("C23", "What is encoded is decoded back",
  "Every message, and every structure within a message, that can be encoded is decoded by the peer, under the same negotiated parameters, to the value that was encoded: all fields, at the same places and widths, "
  "nothing left over. Only fields that the version, the capabilities or an attribute of the message leave out are not carried. A value is refused on decoding only for what the specification rules out "
  "(unsorted or repeated entries, several selected algorithms, contradictory capabilities, sizes that do not match).",
  ["inputs"], "every value of every field, every version, capability set and algorithm selection", "the tests round-trip one hand-picked value per message, mostly under one version; fields with a default value in the test hide a lost field",
  ["message/" + f + ".rs" for f in ("algorithm", "capability", "certificate", "challenge", "digest", "encapsulated", "end_session", "error", "finish", "heartbeat", "key_exchange", "key_update", "measurement", "mod",
   "psk_exchange", "psk_finish", "respond_if_ready", "vendor", "version")] + ["common/spdm_codec.rs", "common/opaque.rs"],
  [("messages", S + "message/*.rs: SpdmCodec::spdm_encode / spdm_read"), ("structures", S + "common/spdm_codec.rs, " + S + "common/opaque.rs")])
p("C32", "Messages have the layout of the SPDM specifications",
  "What is sent for each SPDM message, and for each structure within one, is laid out as DSP0274 and DSP0277 define it for the version and the parameters in use: the fields in order, at their widths, integers little-endian, "
  "reserved bytes zero, each list with its count and each variable part with its length, optional parts present exactly when the version, the negotiated capabilities or the message's own attributes call for them. "
  "(C23 carries this over to what is accepted.)",
  ["inputs", "configurations"], "every value of every field, every version, handshake-in-the-clear, measurement, PSK and algorithm choice", "the tests decode what the same library encoded, or fixed bytes for one version: a change made on both sides passes and breaks only the exchange with other implementations",
  ["message/" + f + ".rs" for f in ("algorithm", "capability", "certificate", "challenge", "digest", "encapsulated", "end_session", "error", "finish", "heartbeat", "key_exchange", "key_update", "measurement", "mod",
   "psk_exchange", "psk_finish", "vendor", "version")] + ["common/spdm_codec.rs", "common/opaque.rs"],
  [("messages", S + "message/*.rs: SpdmCodec::spdm_encode"), ("structures", S + "common/spdm_codec.rs, " + S + "common/opaque.rs")])
p("C24", "Decoding never panics and yields values that fit their buffers",
  "Decoding any bytes as any SPDM message, opaque data element or field, with any negotiated parameters, ends without a panic, an out-of-bounds access or an arithmetic overflow: it yields a value or reports that the bytes are malformed. "
  "In every value it yields, a size or count of data held in an array does not exceed that array, so that code using the value cannot run past it (apart from the number of secured message versions offered, which the responder checks itself).",
  ["inputs", "configurations"], "every byte sequence of every length and every combination of negotiated algorithms, including none", "tests decode a few well-formed messages; fuzzing samples",
  ["common/spdm_codec.rs", "common/opaque.rs", "protocol/algo.rs", "message/mod.rs", "message/digest.rs", "message/measurement.rs", "message/vendor.rs", "message/version.rs", "message/algorithm.rs", "message/error.rs"],
  [("decoders", S + "message/*.rs, " + S + "common/spdm_codec.rs, " + S + "common/opaque.rs: SpdmCodec::spdm_read"), ("fields and codes", S + "protocol/*.rs: Codec::read")],
  note="That Reader never stands outside its buffer is assumed on entry of its methods here (C25 decides it).")

p("C25", "Bytes are read and written in order and within bounds, integers little-endian",
  "A Reader or Writer starts at the beginning of the bytes it is given and its position never leaves them. Taking n bytes (take, sub) yields exactly the next n bytes and moves past them, and is refused - with the position kept - only if fewer are left; rest yields all that is left; left, used and any_left tell the position. "
  "Writing bytes (extend_from_slice, push) places them in order at the position, changes nothing else and moves past them; it is refused - leaving buffer and position as they were - only if they do not fit. used_slice and mut_used_slice are the bytes written so far, clear starts over. "
  "The integers u8, u16, u24, u32, u64 and u128 occupy exactly 1, 2, 3, 4, 8 and 16 bytes, least significant first, when encoded and when read, for every value; encoding reports that size and reading or encoding is refused only for lack of bytes or room. A u24 never holds more than 24 bits. None of these operations panics otherwise.",
  ["inputs"], "every buffer, position, byte string and integer value", "tests encode and decode one value per type",
  ["codec/src/codec.rs"],
  [("reader and writer", "codec/src/codec.rs: Reader, Writer"), ("integers", "codec/src/codec.rs: impl Codec for u8 .. u128, u24")],
  note="Sums of positions and lengths are taken to stay below 2^64. extend_from_slice written as a loop over push is not recognised.")

p("C33", "The certificate format check accepts only well-formed chains",
  "The format check of a received certificate chain never panics, whatever the bytes. It accepts a chain only if the chain is exactly a sequence of certificates with nothing left over, and returns their number. Each certificate is a DER SEQUENCE that ends where its length says and consists of a to-be-signed SEQUENCE with version 3, serial number, signature algorithm with an object identifier, issuer, "
  "validity, subject and public key in their places, the outer signature algorithm and the signature, back to back; in the last certificate both signature algorithms are the ones that belong to the negotiated asymmetric algorithm. Lengths below 64 KiB are read as DER defines them.",
  ["inputs", "configurations"], "every byte string and every asymmetric algorithm", "tests use some certificates and a few malformed headers",
  ["crypto/x509v3.rs"],
  [("chain", S + "crypto/x509v3.rs: check_cert_chain_format"), ("certificate", S + "crypto/x509v3.rs: check_cert_format, check_tbs_certificate, check_signature_algorithm"), ("length", S + "crypto/x509v3.rs: check_length")],
  note="The chain loop is compared with its specification for up to three certificates; that it cannot panic is shown for any number.")

p("C26", "Every cryptographic call reaches the registered callback unchanged",
  "Each function of the crypto and secret modules and time::sleep calls, once, the callback of that name of the one registered instance, with the caller's arguments unchanged and in order, and gives back exactly what the callback returned; without an instance it fails. "
  "register takes the instance given only if none is registered for that purpose yet and tells whether it did. The handle of a running hash is passed on unchanged, duplicated when the running hash is cloned, and finalized exactly once, at the latest when it is dropped.",
  ["inputs", "configurations"], "every call with every argument, every outcome of the callbacks", "tests run with one fixed set of callbacks, several of which ignore their arguments",
  ["crypto/mod.rs", S + "secret/mod.rs", "time/mod.rs"],
  [("cryptographic primitives", S + "crypto/mod.rs: hash, hmac, asym_verify, dhe, cert_operation, hkdf, aead, rand"), ("device secrets", S + "secret/mod.rs: measurement, psk, asym_sign"), ("running hash", S + "crypto/mod.rs: SpdmHashCtx")],
  note="An instance is registered through conquer_once::OnceCell::try_init_once and looked up through try_get_or_init, which are taken to do what they say.")

p("C31", "Codes, algorithm identifiers and sizes are those of the specifications",
  "Every request and response code, version, error code, operation, type and registry id is read from and written as the number that DSP0274 (SPDM), the MCTP bindings and the PCI-DOE specification give it, and a number without a name is kept as it is. "
  "Every algorithm and capability flag is the bit the specification gives it and survives decoding and encoding, at the specified width; no bit appears that was not received. "
  "The sizes reported for the hash, signature, key exchange, AEAD and measurement algorithms and for vendor ids are the specified ones.",
  ["inputs"], "every code value, every set of flags, every algorithm", "tests check a few values, and both ends of a test use the same (possibly wrong) numbers",
  ["protocol/algo.rs", "protocol/capability.rs", "protocol/version.rs", "message/mod.rs", "message/error.rs", "message/key_update.rs", "message/measurement.rs", "message/encapsulated.rs", "message/vendor.rs",
   "message/finish.rs", "message/end_session.rs", "message/key_exchange.rs", "codec/src/macros.rs", "mctp_transport/src/header.rs", "pcidoe_transport/src/header.rs"],
  [("enumerations", "codec/src/macros.rs: enum_builder!, and its uses"), ("flags", S + "protocol/algo.rs, " + S + "protocol/capability.rs: bitflags! and their Codec"), ("sizes", S + "protocol/algo.rs: get_size, get_key_size, get_iv_size, get_tag_size")])

p("C34", "A device presents its certificate chains under the hash algorithm in use",
  "When the algorithms of a connection are settled, each side that presents certificates has built, for every slot with a provisioned chain, the chain of that slot: its total length, two zero bytes, the hash of its first certificate "
  "under the hash algorithm just negotiated, and the provisioned chain in full. A chain built for an earlier connection does not stay. The responder answers ALGORITHMS, and the requester starts to authenticate itself, only after that.",
  ["inputs", "configurations", "histories"], "every set of provisioned slots (any two together), every chain, hash algorithm and earlier connection", "tests connect once, with one hash algorithm and one slot",
  ["common/mod.rs", "responder/algorithm_rsp.rs", "requester/mutual_authenticate.rs"],
  [("building", S + "common/mod.rs: SpdmContext::construct_my_cert_chain"), ("when", S + "responder/algorithm_rsp.rs: write_spdm_algorithm; " + S + "requester/mutual_authenticate.rs: session_based_mutual_authenticate")],
  state=[("provision_info.my_cert_chain", "own certificate chains with length and root hash", S + "common/mod.rs: SpdmProvisionInfo")])

p("C35", "Measurements and summary hashes reported are the device's own",
  "A MEASUREMENTS response carries, for the slot of the request, the record the device gives for the negotiated version, measurement specification and hash and for exactly the index asked for: all, the one index, or nothing when only the total is asked for; "
  "its number is the device's own total for a query or for all, and 0 for one index. The measurement summary hash of CHALLENGE_AUTH, KEY_EXCHANGE_RSP and PSK_EXCHANGE_RSP is the one the device gives for the negotiated parameters and the kind asked for, and is absent only if "
  "none is asked for. A requester is handed the record of the response it accepted, whole, with the number of that same response (the total for a query, the number of blocks otherwise).",
  MSG, "every operation, index, slot and kind of summary hash, every answer of the device including none", "tests use a device that answers every index with the same fixed record",
  ["responder/measurement_rsp.rs", "responder/challenge_rsp.rs", "responder/key_exchange_rsp.rs", "responder/psk_exchange_rsp.rs", "requester/get_measurements_req.rs"],
  [("measurements", S + "responder/measurement_rsp.rs: write_spdm_measurement_response; " + S + "requester/get_measurements_req.rs"), ("summary hash", S + "responder/challenge_rsp.rs, " + S + "responder/key_exchange_rsp.rs, " + S + "responder/psk_exchange_rsp.rs")])

p("C36", "A missing value or unselected algorithm ends in an error, not in a panic",
  "While processing any message, or performing any request, no absent value is unwrapped: what a failing callback (cryptography, device secret, transport), a malformed message, an empty slot or a missing session leaves absent is tested first and ends in an error. "
  "The responder asks for sizes of the signature algorithm, creates key pairs and derives session keys only with algorithms that negotiation selected, and negotiates no connection without a hash algorithm.",
  MSG, "every message and request, every failure of every callback, every outcome of negotiation including none", "tests let most callbacks succeed and always negotiate a full set of algorithms",
  ["responder/context.rs", "responder/challenge_rsp.rs", "responder/measurement_rsp.rs", "responder/key_exchange_rsp.rs", "responder/psk_exchange_rsp.rs", "responder/finish_rsp.rs", "responder/algorithm_rsp.rs", "responder/certificate_rsp.rs", "common/mod.rs",
   "requester/key_exchange_req.rs", "requester/finish_req.rs"],
  [("unwrap and expect", S + "responder/*.rs, " + S + "requester/*.rs, " + S + "common/mod.rs"), ("algorithms", S + "responder/challenge_rsp.rs, " + S + "responder/measurement_rsp.rs, " + S + "responder/key_exchange_rsp.rs, " + S + "responder/psk_exchange_rsp.rs")],
  note="Indexing and arithmetic are not part of it (C24, C25, C27, C28 decide them for decoding, buffers and framing).")
