"""Writes properties.jsonl (run by hand when the list changes)."""
import json, pathlib
S = 'src/siotls/'
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S + f if not f.startswith('/') else f[1:] for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=n, where=files[0]) for n in state], observe_at=list(observe), hook_needed=hook)))

p('P01', 'Application data arrives exactly once, complete and in order, both ways',
  "After a completed handshake, the bytes a side reads are exactly a prefix of the bytes its peer sent: in order, with nothing lost, duplicated or altered, and everything sent is readable once everything emitted has been delivered. This holds for every negotiated cipher suite, key exchange, certificate type and maximum fragment length, for writes of any size (empty, tiny, exactly at and around the fragment limits, many records long), and for any interleaving of sends, partial deliveries and reads in both directions.",
  ['inputs', 'configurations', 'histories'], 'every pair of compatible configurations, every history of sends / partial deliveries / reads / one-sided closes on the two ends, every write size',
  'The repository tests send one or two short strings per configuration; size boundaries, multi-record writes and interleavings of both directions are unbounded.',
  ['connection.py', 'states/connected.py', 'contents/application_data.py', 'crypto/ciphers.py'],
  [('fragmentation and protection of outgoing content', 'connection.py:_send_content/_encrypt'), ('record reassembly and delivery', 'connection.py:_read_next_record/receive_data'), ('plaintext accumulation', 'states/connected.py')],
  ['send_data', 'data_to_send', 'receive_data', 'data_to_read'])
p('P02', 'How received bytes are split or framed never changes the outcome',
  "Feeding the same byte stream in any split into pieces (including byte by byte or everything at once) gives the same handshake result, the same delivered data, the same alert and the same kind of output. Likewise a peer may cut its handshake messages into records at any point, put several handshake messages into one record, pad protected records, interleave change-cipher-spec records during the handshake and send empty application data records, without changing the result.",
  ['inputs', 'schedules'], 'every split of every handshake and data stream into receive calls; every legal division of a flight into records',
  'Tests feed whole flights; the number of split points and framings is exponential.',
  ['connection.py', 'contents/change_cipher_spec.py', 'serial.py'],
  [('record and handshake reassembly', 'connection.py:_read_next_record/_read_next_content')],
  ['receive_data', 'data_to_read', 'data_to_send', 'is_post_handshake'], ['partial input', 'partial handshake message'])
p('P03', 'Everything emitted is well-formed, within limits, padded and decryptable',
  "Every byte a connection emits belongs to a complete record with a legal type, the 1.2 legacy version, and a body within the limit in force: the negotiated maximum fragment length, or 2^14 bytes; protected records are sized to whole multiples of the smaller of 4096 and that limit so that sizes do not reveal content length. An independent implementation of the key schedule and record protection decrypts every protected record with consecutive sequence numbers, finds a legal inner type and no empty handshake fragment, and recovers exactly the messages and data that were sent.",
  ['inputs', 'configurations', 'histories'], 'every configuration, write size and API history',
  'Needs an independent decoder of the output over all sizes and configurations; boundary sizes matter by single bytes.',
  ['connection.py', 'crypto/ciphers.py'],
  [('record framing, padding, AEAD', 'connection.py:_send_content/_encrypt'), ('AEAD nonce and additional data', 'crypto/ciphers.py')],
  ['data_to_send'])
p('P04', 'Protected records altered, dropped, replayed, reordered or forged are refused',
  "When the protected byte stream of an established connection is altered in any way (bits flipped, records dropped, duplicated, swapped, truncated, spliced from the other direction or another connection, or forged), the receiver delivers only data that precedes the alteration, raises a fatal alert no later than when the first altered record is complete, and never delivers anything afterwards.",
  ['inputs', 'fault_sequences'], 'every alteration of every protected stream, on both sides, for every cipher suite',
  'An adversary can choose any of unboundedly many alterations; tests never tamper with an established stream.',
  ['connection.py', 'crypto/ciphers.py', 'states/connected.py', 'states/failed.py'],
  [('AEAD verification with sequence numbers', 'crypto/ciphers.py:decrypt'), ('failure handling', 'connection.py:receive_data/_fail')],
  ['receive_data', 'data_to_read', 'data_to_send'])
p('P05', 'A handshake altered in transit never yields two ends that disagree',
  "If an attacker without keys alters, removes, repeats or injects anything in the handshake flights, then neither side ends up connected unless every handshake message it took part in was received exactly as its peer sent it; whenever both sides are connected they agree on keys and on all negotiated parameters. In particular an attacker cannot downgrade cipher suite, group, signature scheme, application protocol, certificate type or fragment length.",
  ['inputs', 'fault_sequences', 'configurations'], 'every modification of every record of the handshake, in every configuration, with and without a retry',
  'Every byte and field of the flights is a separate attack point; tests only run honest peers.',
  ['transcript.py', 'states/client/wait_finished.py', 'states/server/wait_finished.py', 'states/client/wait_server_hello.py', 'states/server/wait_client_hello.py', 'crypto/ciphers.py'],
  [('transcript hash', 'transcript.py'), ('Finished verification', 'crypto/ciphers.py:verify_finish'), ('certificate verify over transcript', 'states/client/wait_certificate_verify.py')],
  ['receive_data', 'is_connected', 'negotiated configuration', 'send_data'])
p('P06', 'A verifying client only connects to the server it meant to reach',
  "A client given trust anchors and a host name (or a list of trusted raw public keys) becomes connected only if the server presented a currently valid chain to a trust anchor within the allowed depth, made for server authentication and for that name or address, not revoked by the given revocation list nor by stapled or fetched certificate status, or presented one of the trusted raw keys; and only if the server proved possession of that key with a signature over this very handshake using an offered scheme that fits the key. Every other presentation is refused with a fatal alert before any application data can flow, and a good presentation is accepted.",
  ['inputs', 'configurations', 'fault_sequences'], 'every certificate chain / raw key / proof of possession / revocation and status data a server can present, for every key type',
  'The space of bad chains, proofs and statuses is open-ended, and each rejection path only shows up against a deliberately faulty server that the tests do not have.',
  ['states/client/wait_certificate.py', 'states/client/wait_certificate_verify.py', 'states/client/wait_cert_cr.py', 'states/server/wait_client_hello.py', 'crypto/signatures.py', 'crypto/ocsp.py', 'contents/handshakes/certificate.py', 'contents/handshakes/certificate_verify.py'],
  [('chain, name, revocation and status verification', 'states/client/wait_certificate.py'), ('proof of possession', 'states/client/wait_certificate_verify.py')],
  ['receive_data', 'is_connected', 'negotiated peer certificate / key'])
p('P07', 'Application data never leaves in the clear or outside the open connection',
  "Whatever the history of API calls and peer messages, application data handed to a connection is either put on the wire protected under application traffic keys, or refused with a library error that leaves the output untouched; it is accepted exactly while the handshake is complete and the sending side is open. Data is likewise only ever delivered to the application when it arrived protected under application traffic keys on a connection whose handshake completed and whose receiving side is open.",
  ['histories', 'schedules'], 'every sequence of API calls on either side interleaved with peer messages, closes and alerts at every stage of the handshake',
  'The dangerous histories are odd orders (close, alert or send in the middle of the handshake) which tests do not enumerate.',
  ['connection.py', 'states/__init__.py', 'states/closed.py', 'states/connected.py', 'states/failed.py', 'states/server/wait_finished.py'],
  [('send gating', 'connection.py:_send_content'), ('state flags', 'states/*.py'), ('close handling', 'connection.py:close_receiving_end/close_sending_end')],
  ['send_data', 'data_to_send', 'receive_data', 'data_to_read', 'close_sending_end', 'close_receiving_end', 'is_connected'])
p('P08', 'Whatever a peer sends is accepted or refused with one fatal alert',
  "For every byte sequence a peer can send at any stage, in clear or correctly protected, processing terminates and either proceeds, or raises exactly one fatal alert error, leaves that same alert (properly protected when keys are in place) as the last thing in the output, and marks the connection failed; no other kind of exception escapes and no peer input is reported as an internal error.",
  ['inputs', 'fault_sequences'], 'every byte sequence on either side at every handshake stage, before and after protection',
  'Input space is infinite; example tests cover a handful of malformed messages and never malformed messages under encryption.',
  ['connection.py', 'contents/__init__.py', 'contents/alerts.py', 'contents/handshakes/__init__.py', 'contents/handshakes/extensions/__init__.py', 'serial.py', 'states/__init__.py'],
  [('error to alert mapping', 'connection.py:receive_data'), ('parsers', 'contents/**'), ('state machine fallbacks', 'states/__init__.py')],
  ['receive_data', 'data_to_send'])
p('P09', 'Failure is final and a received fatal alert is not answered',
  "Once a connection has failed, for whatever reason, it is never connected again: further input of any kind is ignored without error and delivers nothing, sending is refused with a library error and emits nothing, closing is harmless, and it emits at most the one alert that announced the failure. A received error alert (known or unknown, at any level) makes the connection fail with an error naming that alert and is not answered by anything on the wire; close and cancel notices are not errors.",
  ['histories', 'fault_sequences'], 'every cause of failure at every stage followed by every sequence of API calls and input',
  'Quantifies over what happens after a failure, for any continuation; tests stop at the exception.',
  ['connection.py', 'states/failed.py', 'states/__init__.py', 'contents/alerts.py'],
  [('failure transition', 'connection.py:_fail'), ('failed state', 'states/failed.py'), ('alert processing', 'states/__init__.py')],
  ['receive_data', 'send_data', 'data_to_send', 'data_to_read', 'is_connected', 'close_*'])
p('P10', 'Negotiation follows the server preference and both ends agree on it',
  "For every client offer and server configuration, the server selects its most preferred mutually supported cipher suite, group, signature scheme that its key can make, certificate type and application protocol, answers only what was offered (echoing the session id), ignores unknown and reserved values, and both ends report the same negotiated parameters. When nothing is common, or a mandatory part is missing, it refuses with the alert defined for that case, and a client refuses any selection it did not offer.",
  ['inputs', 'configurations'], 'every client offer (any order, unknown values, missing extensions) against every server configuration, and every server selection against every client configuration',
  'Cross product of preference lists on both sides; unit tests check each negotiation function on a single example.',
  ['states/server/wait_client_hello.py', 'states/client/wait_server_hello.py', 'states/client/wait_encrypted_extensions.py', 'states/client/start.py', 'configuration.py'],
  [('server negotiation', 'states/server/wait_client_hello.py:_negociate*'), ('client checks of server selection', 'states/client/wait_server_hello.py, wait_encrypted_extensions.py')],
  ['receive_data', 'data_to_send', 'negotiated configuration'])
p('P11', 'A retry request happens at most once and leads to a sound handshake',
  "When the client supports the group preferred by the server but sent no share for it, exactly one retry request is made, the client repeats its hello unchanged except for the requested share and echoed cookie, and the handshake completes with a transcript that an independent implementation agrees with. A second retry request, a retry asking for a group not offered or already shared, a server hello that departs from the retried choice, and a second client hello that changes random or suite or still lacks the share, are all refused with a fatal alert.",
  ['inputs', 'configurations', 'histories'], 'every pair of configurations that leads to a retry, every cookie, and every deviation by either peer',
  'Depends on hash/cipher/group combinations and on deviant peers; tests only look at the first half on the server.',
  ['states/client/start.py', 'states/client/wait_server_hello.py', 'states/server/wait_client_hello.py', 'transcript.py', 'contents/handshakes/server_hello.py', 'contents/handshakes/extensions/cookie.py', 'contents/handshakes/extensions/key_share.py'],
  [('client retry', 'states/client/wait_server_hello.py'), ('server retry', 'states/server/wait_client_hello.py:_send_hello_retry_request'), ('transcript restart', 'transcript.py:do_hrr_dance')],
  ['receive_data', 'data_to_send', 'is_connected'])
p('P12', 'Every message and extension survives encode/decode unchanged',
  "For every representable record content, handshake message and extension, encoding produces exactly the bytes the standard prescribes (as an independent encoder writes them), and decoding those bytes gives back an equal message, which encodes to the same bytes again. Unknown extensions are preserved byte for byte. A value that cannot be represented (too long for a length prefix, too big for an integer, or against the rules that a constructor states) is refused, never cut or wrapped.",
  ['inputs'], 'every message and extension value, including empty and maximum-size fields, unknown code points and non-ASCII names',
  'Each structure has unboundedly many values; tests have one example for some of them and none for others.',
  ['contents/__init__.py', 'contents/alerts.py', 'contents/heartbeat.py', 'contents/handshakes/client_hello.py', 'contents/handshakes/server_hello.py', 'contents/handshakes/certificate.py', 'contents/handshakes/certificate_request.py', 'contents/handshakes/extensions/__init__.py', 'serial.py'],
  [('encoders', 'contents/**: serialize/serialize_body'), ('decoders', 'contents/**: parse/parse_body')],
  ['message encode', 'message decode'])
p('P13', 'Decoders accept exactly the well-formed encodings',
  "On any byte string, decoding a message agrees with an independent strict decoder: missing bytes, trailing bytes, lengths that overrun or underrun their container, odd-sized integer lists, illegal enumeration values where no unknown value is allowed, duplicated key shares, and extensions in a message where they are not allowed are refused with a protocol error (decode error, illegal parameter or the defined alert), and everything else decodes to the same field values. The primitive stream reader never reads beyond its buffer or its current limit and never silently returns less than asked.",
  ['inputs'], 'every byte string for every message type, every extension in every message, every sequence of primitive read and write operations',
  'Acceptance must be exact over all byte strings; a test can only try a few.',
  ['serial.py', 'contents/handshakes/__init__.py', 'contents/handshakes/extensions/__init__.py', 'contents/handshakes/extensions/key_share.py', 'contents/handshakes/extensions/server_name.py', 'contents/handshakes/extensions/status_request.py', 'contents/handshakes/client_hello.py', 'contents/handshakes/certificate.py'],
  [('bounded stream', 'serial.py'), ('parsers', 'contents/**')],
  ['message decode', 'stream reader/writer'])
p('P14', 'Key derivation and key log match RFC 8446 for every handshake',
  "For every transcript and shared secret, the derivation functions and all traffic secrets, keys, IVs and finished values equal those computed by an independent implementation of RFC 5869 and RFC 8446. When key logging is on, exactly the standard log lines for this connection are written with those values and the client random; when it is off nothing about any secret is logged.",
  ['inputs', 'configurations'], 'every input of the derivation functions; every cipher suite, group and handshake shape, with logging on or off on either side',
  'Vectors only fix a few points; agreement must hold for all lengths, hashes and transcripts.',
  ['crypto/hkdf.py', 'crypto/ciphers.py', 'transcript.py', 'connection.py'],
  [('HKDF', 'crypto/hkdf.py'), ('schedule', 'crypto/ciphers.py'), ('key log', 'crypto/ciphers.py, connection.py')],
  ['key log', 'wire output decrypted by reference', 'derivation functions'])
p('P15', 'No key protects two records with one nonce nor more than its budget',
  "Within and across connections no two protected records are ever produced with the same key and nonce: sequence numbers start at zero for each new key, grow by one per record in each direction, and randoms and ephemeral key shares are fresh for each connection. A key never protects more records than the limit set for its cipher suite; further sending fails without emitting anything.",
  ['histories', 'configurations'], 'every history of sends over any number of connections, including reaching the (scaled-down) usage limit',
  'Uniqueness over whole histories and exhaustion of limits is not reachable by example tests.',
  ['crypto/ciphers.py', 'connection.py', 'utils.py', 'states/client/start.py', 'crypto/key_exchanges.py'],
  [('nonce sequence', 'crypto/ciphers.py:_next_write_nonce'), ('usage limit', 'crypto/ciphers.py'), ('randoms', 'connection.py')],
  ['data_to_send', 'AEAD inputs'])
p('P16', 'Key exchange agrees for honest shares and refuses invalid ones',
  "For every supported group, two honest parties derive the same secret, which equals an independent computation from the wire shares and has the fixed length of the group, and public shares have the fixed wire length. Shares that are malformed (wrong length or format, not on the curve, zero or low-order results, finite-field values outside 2..p-2) are refused with an error and never yield a secret.",
  ['inputs', 'configurations'], 'every key pair of every group, every byte string as a peer share',
  'Random key pairs hit rare cases (leading zero bytes) and the set of invalid shares is infinite.',
  ['crypto/key_exchanges.py', 'crypto/ffdhe.py', 'states/server/wait_client_hello.py', 'states/client/wait_server_hello.py'],
  [('group implementations', 'crypto/key_exchanges.py'), ('share handling', 'states/server/wait_client_hello.py:_negociate_key_share')],
  ['key exchange functions', 'receive_data'])
p('P17', 'Signature schemes sign and verify exactly as their code point says',
  "For every signature scheme and matching key, a signature made over any message verifies, also under an independent implementation with exactly the prescribed hash, padding, salt length and curve, and independently made signatures verify; any change to message, signature, key, scheme or hash makes verification fail. A server never uses, and a client never accepts, a scheme that does not fit the key type or curve.",
  ['inputs', 'configurations'], 'every scheme, key and message, and every mutation of them',
  'Mutations and cross-scheme confusion form an unbounded space; tests only run the default key.',
  ['crypto/signatures.py', 'states/server/wait_client_hello.py', 'states/client/wait_certificate_verify.py'],
  [('schemes', 'crypto/signatures.py'), ('scheme choice', 'states/server/wait_client_hello.py:_negociate_signature_algorithms')],
  ['sign/verify', 'CertificateVerify on the wire'])
p('P18', 'A certificate status is accepted only if good, fresh, matching and signed',
  "Status validation accepts a response exactly when it is successful, says good, answers the request that was made (issuer name, issuer key and serial number), is inside its validity window, and is signed by the issuer's key; it then reports the end of validity. Everything else is refused with a value error, whatever the issuer key type.",
  ['inputs'], 'every combination of response status, certificate status, identifiers, times, algorithms, signers and corruption',
  'Combinatorial space of response fields with an adversarial signer; the tests never build one.',
  ['crypto/ocsp.py', 'crypto/signatures.py', 'states/client/wait_certificate.py', 'states/server/wait_client_hello.py'],
  [('validation', 'crypto/ocsp.py:validate_ocsp')],
  ['status validation result'])
p('P19', 'Status fetching is bounded, and its cache never serves a stale answer',
  "The status fetcher returns a cached answer exactly while that answer was stored for this very request, has not been withdrawn, displaced or expired; otherwise it posts the request to the given http URL once and returns the body. It refuses other URL schemes, empty hosts, empty requests, wrong content types and oversized answers, and the cache never holds more than its fixed number of answers and keeps those that expire last.",
  ['histories', 'inputs'], 'every sequence of store / withdraw / fetch operations with any expiry times, and every server answer',
  'Cache behaviour depends on histories longer than the cache; no test exists.',
  ['ocsp_over_http.py'],
  [('cache', 'ocsp_over_http.py:cache/uncache/request')],
  ['fetch result', 'requests seen by the status server'], ['cache entries'])
p('P20', 'Closing is one-sided, announced once, and truncation is distinguishable',
  "Closing the sending side of an open connection emits exactly one close notice after all data already sent, after which nothing more can be sent while data from the peer is still received; a received close notice ends reception, after which later bytes are ignored and everything sent before it remains readable. A transport end without close notice, or any close during the handshake, never makes the connection look as if it had been properly established or as if more data could come.",
  ['histories', 'schedules'], 'every interleaving of sends, closes by either side, deliveries and transport ends at every stage',
  'Close races between two sides are schedules; no test closes anything mid-way.',
  ['connection.py', 'states/closed.py', 'states/__init__.py'],
  [('close', 'connection.py:close_sending_end/close_receiving_end'), ('close notice processing', 'states/__init__.py')],
  ['close_sending_end', 'close_receiving_end', 'is_connected', 'receive_data', 'data_to_send'])
p('P21', 'The socket wrapper is a faithful stream over any socket behaviour',
  "Over a socket that accepts and returns arbitrarily small pieces, the wrapper completes the handshake, transmits every byte of every write, returns exactly the peer's bytes in order, reports end of stream as empty reads, sends the pending alert to the peer before raising on failure, and closing sends exactly one close notice. It never loses output because the socket took only part of it.",
  ['schedules', 'fault_sequences', 'histories'], 'every sequence of partial sends, partial receives and ends of file by the socket, for client and server, over every sequence of wrapper calls',
  'Loopback sockets in tests take everything at once; partial writes never occur there.',
  ['wrapper.py', 'connection.py'],
  [('wrapper', 'wrapper.py')],
  ['socket calls', 'wrapper read/write/close'])
p('P22', 'Interoperates with OpenSSL in every shared configuration',
  "A client or server of this library completes the handshake and exchanges data in both directions with OpenSSL, whatever the cipher suite, group, server key type, application protocol, retry, chunking and data size, including the session tickets OpenSSL sends by default; both report the same suite and protocol, and each sees the other's close notice.",
  ['configurations', 'inputs', 'schedules'], 'every shared configuration, every chunking and data size, both roles',
  'The existing interoperability tests run one configuration and stop at the first exchange.',
  ['connection.py', 'states/client/wait_finished.py', 'states/connected.py', 'contents/handshakes/new_session_ticket.py'],
  [('full handshake', 'states/**')],
  ['both ends of an in-memory connection'])
p('P23', 'Configurations are checked up front, immutable, and shared safely',
  "A configuration that cannot work (no suite, group or scheme; a server without private key or without certificate and public key; side-specific options on the wrong side) is refused when it is made, and a usable one is accepted, never changes afterwards, and can be shared by any number of interleaved connections, none of which influences another or the configuration. A negotiated configuration can be changed until it is frozen, and not afterwards.",
  ['configurations', 'histories'], 'every combination of options; every interleaving of several connections on one configuration',
  'Combinations of options and interleavings of connections are not enumerated by any test.',
  ['configuration.py', 'connection.py', 'states/client/wait_server_hello.py', 'states/server/wait_client_hello.py'],
  [('validation', 'configuration.py:__post_init__'), ('per-connection state', 'connection.py')],
  ['configuration constructor', 'configuration fields', 'connection results'])
p('P24', 'Handshake messages are accepted only in the one legal order',
  "A side becomes connected only after receiving every mandatory handshake message exactly once, in the order and under the protection the protocol prescribes, from the right side. A peer holding all keys that skips, repeats, reorders, inserts or misdirects any message, sends application data early, or sends one under the wrong protection, is refused with a fatal alert before the connection is established, and so is one who puts any other record between the two parts of a message.",
  ['histories', 'fault_sequences'], 'every sequence of handshake, alert, application data and cipher-change messages a key-holding peer can send to either side',
  'State machine attacks use sequences no honest peer sends; tests use honest peers and direct state calls.',
  ['states/__init__.py', 'transcript.py', 'states/client/wait_cert_cr.py', 'states/client/wait_certificate.py', 'states/client/wait_certificate_verify.py', 'states/client/wait_finished.py', 'states/server/wait_finished.py', 'states/server/wait_client_hello.py'],
  [('state machine', 'states/**'), ('order table', 'transcript.py:ORDER')],
  ['receive_data', 'is_connected'])
p('P25', 'A server that demands client authentication never connects without it',
  "A server configured with trust anchors or trusted public keys never becomes connected with, accepts data from, or sends data to a client that has not proved possession of a trusted key, whatever that client sends; the kind of credentials it announces is its first that the client has, it asks for the schemes of its configuration, and it refuses a client that has none of a kind it takes. A client without credentials that is asked for one answers with an empty certificate as prescribed and connects. Neither end raises anything but a fatal alert.",
  ['inputs', 'histories', 'configurations'], 'every behaviour of a client against such a server and every certificate request to a client',
  'Absence of an authentication bypass is a statement over all client behaviours.',
  ['states/server/wait_client_hello.py', 'states/server/wait_flight2.py', 'states/client/wait_finished.py', 'contents/handshakes/certificate_request.py'],
  [('certificate request', 'states/server/wait_client_hello.py:_request_user_certificate'), ('client answer', 'states/client/wait_finished.py:_send_certificate')],
  ['receive_data', 'is_connected', 'data_to_send'])
p('P26', 'Helpers compute what they document for every input',
  "The hex dump shows every byte of its input at its offset and can be inverted; the HTTP helpers announce exactly the number of body bytes that the encoded message carries; the peeking iterator yields the underlying items once, in order, whatever the mix of peeks and nexts; the trust store locator returns the path of the system itself or of the first known relative, and refuses unknown ones.",
  ['inputs', 'histories'], 'every byte string, text, call sequence and release description',
  'Pure functions over unbounded inputs with one or two examples in the tests.',
  ['utils.py', 'trust_store.py'],
  [('helpers', 'utils.py'), ('trust store path', 'trust_store.py:get_ca_certificates_path')],
  ['return values'])
p('P27', 'Bundled programs serve every request and trust only verified servers',
  "The bundled server (python -m siotls server) answers each request it gets in one record, over a completed handshake, with the status and body that its method and path call for (GET / is 200 with the greeting, other paths 404, other methods 405, anything else that isn't three words of UTF-8 is 400), followed by a close notice and an entry in its log, and keeps serving whatever its other clients do: garbage, partial or failing handshakes, alerts, resets, silence. Interrupted, it exits with 0. The bundled client sends its request to, and prints the answer of, only a server that the anchors of the system vouch for under the requested host (or any that holds the key it presents, with --insecure) and exits with 0, otherwise with 1 without having sent the request. --keylogfile gets the secrets of the connections. Files that cannot be read are named and end the program with 1.",
  ['inputs', 'fault_sequences', 'configurations'], 'every request, sequence of clients, presentation, system store and option',
  'No test runs these programs; what they promise spans the whole stack and depends on what the other end does.',
  ['__main__.py', 'examples/simple_server.py', 'examples/simple_client.py', 'trust_store.py', 'wrapper.py'],
  [('server loop', 'examples/simple_server.py:serve'), ('client', 'examples/simple_client.py:connect'), ('system store', 'trust_store.py:get_system_store')],
  ['sockets', 'exit code', 'standard output', 'key log file'])
p('P28', 'Certificate statuses are asked for, stapled and remembered exactly when due',
  "A server given a status service staples the status of its certificate, to that certificate alone, exactly when the client asks for it, X.509 is agreed on, an issuer follows in its chain, the certificate names an OCSP address and the service yields a valid answer; without one the connection goes on with nothing stapled. A client with trust anchors asks for stapling, judges the stapled status of each certificate of the verified chain below the anchor, and asks the service, once, about each of the others that names an address; any of these statuses that is missing or bad ends the connection. Either side asks the first OCSP address about the very certificate and issuer, caches a valid answer until exactly its own end, and withdraws an invalid one.",
  ['inputs', 'histories', 'fault_sequences'], 'every chain, access description, request for a status, stapled status and behaviour of the status service, on either side',
  'The use of the service depends on the combination of what was asked, agreed, configured and answered; no test uses a service.',
  ['states/server/wait_client_hello.py', 'states/client/wait_certificate.py', 'states/client/start.py', 'crypto/ocsp.py'],
  [('stapling', 'states/server/wait_client_hello.py:_get_ocsp_status'), ('verification', 'states/client/wait_certificate.py:_verify_statuses')],
  ['calls to the status service', 'certificate message', 'fatal alerts'])
p('P29', 'Misuse is refused without effect and the buffers of callers stay theirs',
  "A call that makes no sense where it is made (writing before the connection is open or after it was closed, initiating twice, empty input, text or nothing for bytes, an unsupported change of keys, a server given a name to reach) raises an exception that is no fatal alert, emits and yields nothing and leaves the connection as it was: whatever follows goes as if the call had not been made. Input may be bytes, a bytearray or a memoryview, and the caller may overwrite any buffer it gave, and any buffer it got, as soon as the call returned, without effect on the connection. An end that was not told to begin (initiate_connection) makes no connection of what it receives: it refuses it with a fatal alert.",
  ['histories', 'inputs'], 'every interleaving of legal and senseless calls on both ends, over every kind and reuse of buffers',
  'Tests call things in the right order with immutable bytes; a half-done effect of a refused call shows later.',
  ['connection.py', 'states/__init__.py', 'states/connected.py', 'states/client/start.py', 'states/server/wait_client_hello.py'],
  [('input', 'connection.py:receive_data'), ('output', 'connection.py:send_data')],
  ['exceptions', 'data_to_send', 'data_to_read', 'is_connected'])
p('P30', 'A connection does no I/O of its own, and what it says holds no secret',
  "Making a connection and every call on it open no file and no socket, start no process or thread, never sleep and print nothing: what leaves a connection are the bytes it returns, exceptions, log records, and calls to the status service it was given, if any. Whatever happens on it, log records at any level (but the key log) and exceptions, with their causes, hold neither application data, nor secrets, keys or nonces of the key schedule, nor private keys.",
  ['histories', 'inputs', 'configurations'], 'every history of calls and inputs, good and bad, with and without a status service',
  'Tests look at results, not at side effects or at what is logged on unusual paths.',
  ['connection.py', 'states/__init__.py', 'states/client/wait_certificate.py', 'states/server/wait_client_hello.py', 'crypto/ciphers.py'],
  [('logs', 'connection.py:receive_data'), ('status service', 'connection.py:__init__')],
  ['audit events', 'log records', 'exceptions', 'standard streams'])
p('P31', 'The system trust store holds the authorities of the system and nobody else',
  "get_system_store() returns a store made of exactly the certificates of the bundle which the running Linux distribution keeps for all its programs: the bundle of the distribution named in its os-release, or else of the first known one it says it is like, in that order. A client that uses it connects to servers of those authorities and of no other. On a system that is not known, or when the bundle is missing, unreadable or holds no certificate, an exception says so: never an empty store nor the bundle of something else.",
  ['configurations', 'inputs'], 'every os-release, every set of bundles and every authority',
  'The tests run on one system, with the bundle it happens to have.',
  ['trust_store.py'],
  [('os-release', 'trust_store.py:get_system_store'), ('bundles', 'trust_store.py:get_ca_certificates_path')],
  ['connection of a client that uses the store', 'exceptions'])
p('P32', 'A record is taken up to exactly the limit in force, and refused beyond it',
  "A plaintext record is accepted up to the limit in force: 2^14 bytes, or the fragment length once one was negotiated; a protected one up to 256 bytes more, its inner content with padding up to the limit. A longer one is refused with a fatal record_overflow alert, as soon as its header is there when the header says so, and nothing of it is delivered. A length within the limit is never refused, whatever the type and the moment, and an end accepts records of any length up to the limit, however its peer cuts them.",
  ['inputs', 'histories', 'configurations'], 'every length, type, padding, moment of the exchange and negotiated limit',
  'Peers send records of ordinary lengths; the tests look at one or two lengths.',
  ['connection.py'],
  [('record header', 'connection.py:_read_next_record'), ('inner content', 'connection.py:_decrypt')],
  ['alerts', 'delivered data'])
p('P33', 'A heartbeat is answered exactly when agreed, with its own payload only',
  "Once connected, an end answers a heartbeat request exactly when it told its peer that it would (the extension was negotiated and the configuration allows it), it may still send, the request has at least 16 bytes of padding, and the answer fits in one record: by one protected answer, in order, that holds the announced payload, nothing beyond what the request itself carried, and at least 16 bytes of fresh padding. Every other heartbeat (answers, little padding, not agreed on, during the handshake) gets no answer; it is discarded without effect on the connection and its data, or, when malformed or during the handshake, refused with a fatal alert.",
  ['inputs', 'histories', 'configurations'], 'every heartbeat, agreement, fragment limit and moment',
  'Tests send one good heartbeat; lengths, limits and moments decide.',
  ['states/connected.py', 'contents/heartbeat.py', 'states/client/wait_encrypted_extensions.py', 'states/server/wait_client_hello.py'],
  [('heartbeat record', 'states/connected.py:_process_heartbeat'), ('extension', 'states/server/wait_client_hello.py:_negociate_heartbeat')],
  ['answers', 'delivered data', 'alerts'])
out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(x) + '\n' for x in P))
print(len(P), [x['id'] for x in P if len(x['title']) > 80])
